From 486724d72b464332f07ee8afb1b487f03c61f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 01/33] fix: Circuit.clear also forgets the recorded parameters

---
 deepquantum/gates/qcircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6396bba..6dd59ae 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -152,6 +152,8 @@ class Circuit(object):
     
     def clear(self):
         self.gate = []
+        self.cir_params = {}
+        self.cir_num_params = 0
         #self._U = torch.tensor(1.0) + 0j
 
         
-- 
2.43.0


From ca237ffd6450fea995aba750c15cb1723ad96b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 02/33] fix: partial_trace no longer reorders the caller's list
 of qubits

---
 deepquantum/gates/qmath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 0c1fd99..d09fdfe 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -133,7 +133,7 @@ def partial_trace_old(rho,N,trace_lst):
     if len(trace_lst)!=0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
     
-    trace_lst.sort()#必须从小到大排列
+    trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
     if len(trace_lst) == 0:
         return rho + 0j
@@ -163,7 +163,7 @@ def partial_trace(rho, N, trace_lst):
     if len(trace_lst) != 0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
     
-    trace_lst.sort()#必须从小到大排列
+    trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
     if len(trace_lst) == 0:
         return rho + 0j
-- 
2.43.0


From 09d8d865eb6745288a3623e28cab3667785f5867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 03/33] fix: measure(..., ith=0) measures qubit 0 instead of
 every qubit

---
 deepquantum/gates/qmath.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index d09fdfe..4bba473 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -208,13 +208,13 @@ def _Zmeasure(n_qubit:int, ith=None):
     #生成测量力学量的列表
     #print(n_qubit,type(n_qubit))
     M_lst = []
-    if not ith:
+    if type(ith) == int: #ith可以是0，不能用not ith判断
+        Mi = dq.PauliZ(n_qubit, ith).U_expand()
+        M_lst.append(Mi)
+    elif not ith:
         for i in range(n_qubit):
             Mi = dq.PauliZ(n_qubit, i).U_expand()
             M_lst.append(Mi)
-    elif type(ith) == int:
-        Mi = dq.PauliZ(n_qubit, ith).U_expand()
-        M_lst.append(Mi)
     else:
         for i in ith:
             Mi = dq.PauliZ(n_qubit, i).U_expand()
-- 
2.43.0


From 3fc91db3c90c9acd140ed0e0539a76ab855d9590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 04/33] fix: measure keeps the autograd graph of the measured
 state

---
 deepquantum/gates/qmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 4bba473..04a9896 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -250,7 +250,7 @@ def measure(n_qubit, state, ith=None):
     M_lst = _Zmeasure(n_qubit, ith)
     for Mi in M_lst:
         measure_rst.append(expval(state, Mi, rho=rho))
-    return torch.tensor(measure_rst)
+    return torch.stack(measure_rst) #保留计算图，使测量结果可求导
 
 if __name__ == '__main__':
     
-- 
2.43.0


From faf573de136fe57994935a8c407874712e52c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 05/33] fix: MPS_inner_product for a single qubit and for bonds
 of dimension 1

---
 deepquantum/gates/qtensornetwork.py | 45 ++++-------------------------
 1 file changed, 5 insertions(+), 40 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index ed96e33..636dd30 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -152,46 +152,11 @@ def MPS_inner_product(ketMPS,braMPS):
     '''
     MPS做内积完全没必要，不如直接恢复成state vector再做内积
     '''
-    #上限12个qubit
-    N = len(ketMPS)
-    lst = []
-    for i in range(N):
-        t1 = ketMPS[i]
-        t2 = braMPS[i]
-        t1 = t1.permute(1,2,0)
-        t2 = t2.permute(1,2,0)
-        
-        for j in range(3):
-            t1 = t1.unsqueeze(2*j+1)
-            t2 = t2.unsqueeze(2*j)
-        qbit_tensor = (t2.conj() @ t1).squeeze()
-        lst.append(qbit_tensor)
-    
-    for i in range(len(lst)-1):
-        if i == 0:
-            t = lst[i]
-            
-        t_nxt = lst[i+1]
-        if i != len(lst) - 2:
-            t_nxt = t_nxt.permute(2,3,0,1)
-        
-        t = t.unsqueeze(-2).unsqueeze(-4) #1212
-        t_nxt = t_nxt.unsqueeze(-1).unsqueeze(-3) #442121
-        
-        temp = t @ t_nxt #442211
-        temp = temp.squeeze() #4422
-        if i != len(lst) - 2:
-            '''
-            einsum高阶张量求迹，TZH我的超人！！！
-            '''
-            t = torch.einsum('abii->ab',temp)
-            # for k in range(temp.shape[2]):
-            #     if k == 0:
-            #         t = temp[:,:,0,0]
-            #     else:
-            #         t += temp[:,:,k,k]
-        else:
-            t = torch.trace(temp)
+    #从左到右逐个qubit收缩，bond dimension为1或只有1个qubit时同样适用
+    t = torch.ones(1,1) + 0j
+    for ket,bra in zip(ketMPS,braMPS):
+        t = torch.einsum('ab,sac,sbd->cd',[t,bra.conj(),ket])
+    t = t.squeeze()
     #返回的是内积，不是内积的模平方
     return t
 
-- 
2.43.0


From f7af4376c595d22fe78e38a5bd1ae84f637bcffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 06/33] fix: MPS_expec leaves the MPS it is given unchanged

---
 deepquantum/gates/qtensornetwork.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 636dd30..8da161d 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -166,6 +166,7 @@ def MPS_expec(MPS,wires:List[int],local_obserable:List[torch.Tensor]):
     wires也是一个list，表明每个局部力学量作用在哪个qubit上
     '''
     SV0 = MPS2StateVec(MPS).view(1,-1)
+    MPS = list(MPS) #不改变输入的MPS
     
     for i,qbit in enumerate(wires):
         temp = MPS[qbit]
-- 
2.43.0


From b13281a381f46dd96c28455c35c70dcc7651a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 07/33] fix: accept non-contiguous states and density matrices
 (e.g. dag(rho))

---
 deepquantum/gates/qtensornetwork.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 8da161d..98c30b9 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -57,7 +57,7 @@ def MatrixProductState(psi:torch.Tensor, N:int)->torch.Tensor:
     if psi.shape[0] != 1 or psi.shape[1] != 2**N:
         raise ValueError('StateVec2MPS:input shape must be 1 ROW 2^N COLUMN')
     
-    MPS = psi.view([2]*N)
+    MPS = psi.reshape([2]*N)
     return MPS
 
 
@@ -193,7 +193,7 @@ def Rho2MPS(Rho:torch.Tensor,N:int)->List[torch.Tensor]:
     if Rho.shape[0] != 2**N or Rho.shape[1] != 2**N:
         raise ValueError('Rho2MPS : dimension of rho must be [2^N, 2^N]')
     MPS_lst = []
-    r_tensor = Rho.view(1,-1)
+    r_tensor = Rho.reshape(1,-1)
     for i in range(N):
         #密度矩阵的reshape过程比态矢复杂得多
         r_tensor = torch.cat(torch.chunk(r_tensor, chunks=2, dim=1),dim=0)#先竖着切一刀，按照行堆叠
@@ -274,7 +274,7 @@ def MatrixProductDensityOperator(rho:torch.Tensor, N:int)->torch.Tensor:
         raise ValueError('MPDO: rho must be matrix(rank-2 tensor)')
     if rho.shape[0] != 2**N or rho.shape[1] != 2**N:
         raise ValueError('MPDO: dimension of rho must be [2^N, 2^N]')
-    rho_tensor = rho.view([2]*2*N)
+    rho_tensor = rho.reshape([2]*2*N)
     assert len(rho_tensor.shape) == 2*N
     return rho_tensor
 
-- 
2.43.0


From c0ee3cbd4c911732b996d124351eff19c5d0cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 08/33] fix: PrepareRho conjugates the bra, so complex states
 give a density matrix

---
 deepquantum/embeddings/qstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/embeddings/qstate.py b/deepquantum/embeddings/qstate.py
index e1d90b9..2fbe998 100644
--- a/deepquantum/embeddings/qstate.py
+++ b/deepquantum/embeddings/qstate.py
@@ -11,7 +11,7 @@ def PrepareState(state):
 
 def PrepareRho(state):
     basic_rho = PrepareState(state).unsqueeze(0)
-    return basic_rho.T @ basic_rho  # out-produt
+    return basic_rho.T @ basic_rho.conj()  # out-produt
 
 
 
-- 
2.43.0


From 221dc7d465179a1508cf9f0ecc97b1334796178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 09/33] fix: QuanConv2D visits only windows that fit inside the
 image

---
 deepquantum/nn/modules/quanv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/nn/modules/quanv.py b/deepquantum/nn/modules/quanv.py
index f3a3014..1119d31 100644
--- a/deepquantum/nn/modules/quanv.py
+++ b/deepquantum/nn/modules/quanv.py
@@ -90,8 +90,8 @@ class QuanConv2D(nn.Module):
 
         out = torch.zeros((batch, out_channel, len_x_out, len_y_out))
         for batch_i in range(batch):
-            for j in range(0, len_x_in, self.stride):
-                for k in range(0, len_y_in, self.stride):
+            for j in range(0, len_x_out*self.stride, self.stride):
+                for k in range(0, len_y_out*self.stride, self.stride):
 
                     x = input[batch_i, 0, j:j+self.kernel_size, k:k+self.kernel_size].reshape(-1) #[batch,channel,x,y]
                     # print("x::", x, j, j+self.kernel_size, k, k+self.kernel_size)
-- 
2.43.0


From 9af8ab9da005fbdfbe77b2477d59d6ca70337caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 10/33] fix: legacy rxx/ryy/rzz accept qubit 0 as second target

---
 deepquantum/gates/qgate.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index 2690710..b960310 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -263,10 +263,8 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
-            target_qubit02 = target_qubit01 + 1
-        assert target_qubit01 <= self.n_qubits
-        assert target_qubit02 <= self.n_qubits
+        assert 0 <= target_qubit01 < self.n_qubits
+        assert 0 <= target_qubit02 < self.n_qubits
 
         # self._add_gate('rxx', target_qubit01, phi)
         # self._add_gate('rxx', target_qubit02, phi)
@@ -283,10 +281,8 @@ class Circuit(object):
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
 
-        if not target_qubit02:
-            target_qubit02 = target_qubit01 + 1
-        assert target_qubit01 <= self.n_qubits
-        assert target_qubit02 <= self.n_qubits
+        assert 0 <= target_qubit01 < self.n_qubits
+        assert 0 <= target_qubit02 < self.n_qubits
         assert target_qubit01 != target_qubit02, \
             "target qubit should not be the same"
 
@@ -304,10 +300,8 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
-            target_qubit02 = target_qubit01 + 1
-        assert target_qubit01 <= self.n_qubits
-        assert target_qubit02 <= self.n_qubits
+        assert 0 <= target_qubit01 < self.n_qubits
+        assert 0 <= target_qubit02 < self.n_qubits
 
         # self._add_gate('rzz', target_qubit01, phi)
         # self._add_gate('rzz', target_qubit02, phi)
-- 
2.43.0


From 154a57a8cd05df8014eff37f30fcb113a5c443dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 11/33] fix: MPS_inner_product keeps the dtype of the MPS

---
 deepquantum/gates/qtensornetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 98c30b9..6aead1d 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -153,7 +153,7 @@ def MPS_inner_product(ketMPS,braMPS):
     MPS做内积完全没必要，不如直接恢复成state vector再做内积
     '''
     #从左到右逐个qubit收缩，bond dimension为1或只有1个qubit时同样适用
-    t = torch.ones(1,1) + 0j
+    t = torch.ones(1, 1, dtype=ketMPS[0].dtype)
     for ket,bra in zip(ketMPS,braMPS):
         t = torch.einsum('ab,sac,sbd->cd',[t,bra.conj(),ket])
     t = t.squeeze()
-- 
2.43.0


From 6526614ce527bee7d6ebe9a16c4486bc7cb17798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 12/33] fix: legacy two-qubit gates reject unusable qubits
 before recording the gate

---
 deepquantum/gates/qgate.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index b960310..3ba0f4e 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -208,9 +208,12 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(control_qubit, int), \
             "control qubit is not integer"
-        assert control_qubit <= self.n_qubits
+        assert 0 <= control_qubit < self.n_qubits, \
+            "control qubit is not available"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
+        assert control_qubit != target_qubit, \
+            "control cannot be equal to target"
         self._add_gate('cnot', [control_qubit, target_qubit],None)
         self._add_u(self.two_qubit_control_gate(self._x_gate(), self.n_qubits, control_qubit, target_qubit))
 
@@ -243,9 +246,12 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(control_qubit, int), \
             "control qubit is not integer"
-        assert control_qubit <= self.n_qubits
+        assert 0 <= control_qubit < self.n_qubits, \
+            "control qubit is not available"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
+        assert control_qubit != target_qubit, \
+            "control cannot be equal to target"
 
         self._add_gate('cz', [control_qubit, target_qubit],None)
         self._add_u(self.two_qubit_control_gate(self._z_gate(), self.n_qubits, control_qubit, target_qubit))
@@ -265,6 +271,8 @@ class Circuit(object):
             "target qubit is not integer"
         assert 0 <= target_qubit01 < self.n_qubits
         assert 0 <= target_qubit02 < self.n_qubits
+        assert target_qubit01 != target_qubit02, \
+            "target qubit should not be the same"
 
         # self._add_gate('rxx', target_qubit01, phi)
         # self._add_gate('rxx', target_qubit02, phi)
@@ -302,6 +310,8 @@ class Circuit(object):
             "target qubit is not integer"
         assert 0 <= target_qubit01 < self.n_qubits
         assert 0 <= target_qubit02 < self.n_qubits
+        assert target_qubit01 != target_qubit02, \
+            "target qubit should not be the same"
 
         # self._add_gate('rzz', target_qubit01, phi)
         # self._add_gate('rzz', target_qubit02, phi)
-- 
2.43.0


From 6d06784496916eb4a1f2626a7f6f6c858076212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 13/33] fix: u1 and cphase matrices stay differentiable in
 their angle

---
 deepquantum/gates/qoperator.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 786d458..fc72953 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -525,8 +525,10 @@ class u1(SingleGateOperation):
         theta = theta + torch.tensor(0.0)
         self.params = theta
         
-        exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0],[0,exp_itheta]]) + 0j
+        c = torch.cos(0.5*theta)
+        s = torch.sin(0.5*theta)
+        e = c+1j*s
+        self.matrix = e*( c*torch.eye(2,2) - 1j*s*torch.tensor([[1,0],[0,-1]]) )
 
 
 
@@ -1407,7 +1409,7 @@ class cphase(Operation):
     def U_expand(self):
         if self.nqubits != -1 and self.wires != -1:
             exp_itheta = torch.cos(self.params) + 1j * torch.sin(self.params)
-            phase_gate = torch.tensor( [[1,0],[0,exp_itheta]] ) + 0j
+            phase_gate = torch.eye(2,2) + (exp_itheta-1)*torch.tensor( [[0,0],[0,1]] )
             control = self.wires[0]
             target = self.wires[1]
             return Operation.two_qubit_control_gate( phase_gate, self.nqubits, control, target )
@@ -1527,10 +1529,11 @@ class cphase(Operation):
         theta = theta + torch.tensor(0.0)
         self.params = theta
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0,0,0],\
-                                    [0,1,0,0],\
-                                    [0,0,1,0],\
-                                    [0,0,0,exp_itheta]]) + 0j
+        mt = torch.tensor([[0,0,0,0],\
+                           [0,0,0,0],\
+                           [0,0,0,0],\
+                           [0,0,0,1]])
+        self.matrix = torch.eye(4,4) + (exp_itheta-1)*mt
 
 
 
-- 
2.43.0


From 29c3a7d640091bc48902cca1389b7d7fbf5aee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 14/33] fix: operation_dagger works for, and is differentiable
 in, trainable parameters

---
 deepquantum/gates/qoperator.py |  8 ++++----
 deepquantum/layers/qlayers.py  | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index fc72953..0ca6481 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -574,8 +574,8 @@ class u3(SingleGateOperation):
     
     
     def operation_dagger(self):
-        theta, phi, lambd = self.params[0],self.params[1],self.params[2]
-        return u3([-theta,-lambd,-phi],self.nqubits,self.wires)
+        theta, phi, lambd = [ p + torch.tensor(0.0) for p in self.params ]
+        return u3(torch.stack([-theta,-lambd,-phi]),self.nqubits,self.wires)
     
     
     def info(self):
@@ -1676,8 +1676,8 @@ class cu3(Operation):
             
     
     def operation_dagger(self):
-        theta, phi, lambd = self.params[0],self.params[1],self.params[2]
-        return cu3([-theta,-lambd,-phi],self.nqubits,self.wires)
+        theta, phi, lambd = [ p + torch.tensor(0.0) for p in self.params ]
+        return cu3(torch.stack([-theta,-lambd,-phi]),self.nqubits,self.wires)
     
     def info(self):
         #将门的信息整合后return，用来添加到circuit的gate_lst中
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 307f8bd..c144638 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -169,7 +169,7 @@ class XYZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return ZYXLayer(self.nqubits,self.wires,params_tensor)
@@ -242,7 +242,7 @@ class ZYXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XYZLayer(self.nqubits,self.wires,params_tensor)
@@ -348,7 +348,7 @@ class YZYLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return YZYLayer(self.nqubits,self.wires,params_tensor)
@@ -428,7 +428,7 @@ class XZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XZXLayer(self.nqubits,self.wires,params_tensor)
@@ -497,7 +497,7 @@ class XZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return ZXLayer(self.nqubits,self.wires,params_tensor)
@@ -571,7 +571,7 @@ class ZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return XZLayer(self.nqubits,self.wires,params_tensor)
-- 
2.43.0


From 0c7bf31f8c3db2b6bcfb6dcde74d00dfbaef6efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 15/33] fix: a ring_of_cnot on part of the wires does not claim
 tensor-network support

---
 deepquantum/layers/qlayers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index c144638..0c1c663 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -650,7 +650,8 @@ class ring_of_cnot(TwoQbitGateLayer):
         self.nqubits = N
         self.wires = wires
         self.num_params = 0
-        self.supportTN = True
+        #TN_operation、TN_contract只支持wires为全部qubit且从小到大排列
+        self.supportTN = (wires == list( range(N) ))
     
     def _gate_fusion_U_expand(self,N):
         if N < 3:
@@ -803,7 +804,8 @@ class ring_of_cnot_dagger(TwoQbitGateLayer):
         self.nqubits = N
         self.wires = wires
         self.num_params = 0
-        self.supportTN = True
+        #TN_operation、TN_contract只支持wires为全部qubit且从小到大排列
+        self.supportTN = (wires == list( range(N) ))
     
     def _gate_fusion_U_expand(self,N):
         if N < 3:
-- 
2.43.0


From cbafbcef160747047430aed871cc9483e1d28727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 16/33] fix: BasicEntangleLayer stores list parameters as a
 tensor like every other layer

---
 deepquantum/layers/qlayers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 0c1c663..cd29144 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -987,6 +987,9 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        #如果是列表，先转成tensor
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.num_params = len(params_lst)
         self.params = params_lst
         self.repeat = repeat
-- 
2.43.0


From 668715e9a2080de6d8cde4b4794b374b695f468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 17/33] fix: rxx, ryy and rzz evolve an MPS, as their supportTN
 flag promises

---
 deepquantum/gates/qoperator.py | 43 ++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 0ca6481..a61bc50 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -598,6 +598,25 @@ class u3(SingleGateOperation):
             @ rz(theta).matrix \
             @ rx(0.5*torch.pi).matrix \
             @ rz(lambd).matrix
+def TwoQbitGateTN(matrix, N, upqbit, downqbit, MPS:List[torch.Tensor])->List[torch.Tensor]:
+    '''
+    把4X4的matrix作用到MPS的upqbit、downqbit上(upqbit<downqbit)，不相邻时用SWAP搬运
+    '''
+    for i in range(upqbit,downqbit-1):
+        MPS = SWAP(N,[i,i+1]).TN_operation(MPS)
+    
+    temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+    s = temp.shape
+    temp = temp.reshape(s[0],s[1],s[2]*s[3],1)
+    temp = (matrix @ temp).view(s[0],s[1],s[2],s[3])
+    temp = temp.permute(2,3,0,1)
+    #融合后的张量恢复成两个张量
+    MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+    
+    for i in range(downqbit-1,upqbit,-1):
+        MPS = SWAP(N,[i-1,i]).TN_operation(MPS)
+    return MPS
+
 #==============================带参数两比特门==================================
 
 
@@ -643,6 +662,14 @@ class rxx(Operation):
         else:
             raise ValueError("Rxx gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("rxx gate input error! cannot TN_operation")
+        if len(self.wires) != 2:
+            raise ValueError("TN_operation: rxx gate must be applied on 2 qbits")
+        #矩阵关于两个qubit对称，无需区分wires的先后顺序
+        return TwoQbitGateTN(self.matrix, self.nqubits, min(self.wires), max(self.wires), MPS)
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -779,6 +806,14 @@ class ryy(Operation):
     
     
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("ryy gate input error! cannot TN_operation")
+        if len(self.wires) != 2:
+            raise ValueError("TN_operation: ryy gate must be applied on 2 qbits")
+        #矩阵关于两个qubit对称，无需区分wires的先后顺序
+        return TwoQbitGateTN(self.matrix, self.nqubits, min(self.wires), max(self.wires), MPS)
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -913,6 +948,14 @@ class rzz(Operation):
         else:
             raise ValueError("Rzz gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("rzz gate input error! cannot TN_operation")
+        if len(self.wires) != 2:
+            raise ValueError("TN_operation: rzz gate must be applied on 2 qbits")
+        #矩阵关于两个qubit对称，无需区分wires的先后顺序
+        return TwoQbitGateTN(self.matrix, self.nqubits, min(self.wires), max(self.wires), MPS)
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
-- 
2.43.0


From 06a297ae8e60b127af008e6a404f0e206be355b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:36 +0000
Subject: [PATCH 18/33] fix: parameter_shift uses, and restores exactly, the
 current parameters of every gate

---
 deepquantum/gates/qcircuit.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6dd59ae..2fc1655 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -286,14 +286,16 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            #cir_params只记录添加时的参数，params_update之后以gate.params为准
+            p0 = gate.params
+            p = p0.detach() + torch.tensor(0.0) #浮点副本，不改动原参数
             if len(p.shape) == 0:
                 #只有单个参数
                 self.cir.gate[idx].params_update(p + 0.5*torch.pi)
                 e1 = self.cir.cir_expectation(self.init_state, self.M)
                 self.cir.gate[idx].params_update(p - 0.5*torch.pi)
                 e2 = self.cir.cir_expectation(self.init_state, self.M)
-                self.cir.gate[idx].params_update(p) #最后别忘了把参数恢复
+                self.cir.gate[idx].params_update(p0) #最后别忘了把参数恢复
                 grad_lst.append( 0.5*(e1 - e2) )
             
             elif len(p.shape) == 1:
@@ -308,9 +310,8 @@ class parameter_shift(object):
                     e2 = self.cir.cir_expectation(self.init_state, self.M)
                     
                     p[i] = p[i] + 0.5*torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    #最后别忘了把参数恢复
                     grad_lst.append( 0.5*(e1 - e2) )
+                self.cir.gate[idx].params_update(p0) #最后别忘了把参数恢复
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
@@ -385,7 +386,9 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            #cir_params只记录添加时的参数，params_update之后以gate.params为准
+            p0 = gate.params
+            p = p0.detach() + torch.tensor(0.0) #浮点副本，不改动原参数
             if len(p.shape) == 0:
                 #只有单个参数
                 p = p - torch.pi
@@ -403,8 +406,7 @@ class parameter_shift(object):
                 temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
                 temp = -1.0*temp.real
                 
-                p = p + torch.pi
-                self.cir.gate[idx].params_update(p)
+                self.cir.gate[idx].params_update(p0) #最后别忘了把参数恢复
                 
                 grad_lst.append(temp)
                 
@@ -427,10 +429,9 @@ class parameter_shift(object):
                     temp = -1.0*temp.real
                     #本来取虚部变成取负实部，相当于修正了-1j
                     p[i] = p[i] + torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    #最后别忘了把参数恢复
                     
                     grad_lst.append( temp )
+                self.cir.gate[idx].params_update(p0) #最后别忘了把参数恢复
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
-- 
2.43.0


From ac487aaa966437e69aff03ff36e2019069221493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:55 +0000
Subject: [PATCH 19/33] fix: parameter-shift gradient of cu3 uses the four-term
 rule

---
 deepquantum/gates/qcircuit.py | 46 +++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 2fc1655..5391285 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -278,6 +278,19 @@ class parameter_shift(object):
     
     
     
+    @staticmethod
+    def _shift_rule(gate):
+        '''
+        返回[(shift,coef),...]，期望值的导数等于sum coef*( E(theta+shift) - E(theta-shift) )
+        cu3是受控旋转，生成元本征值为0,±1/2，两项公式不成立，需要四项公式
+        '''
+        if isinstance(gate, cu3):
+            r = 2**0.5
+            return [(0.5*torch.pi, (r+1)/(4*r)), (1.5*torch.pi, -(r-1)/(4*r))]
+        return [(0.5*torch.pi, 0.5)]
+    
+    
+    
     def cal_params_grad(self):
         grad_lst = []
         for idx,gate in enumerate( self.cir.gate ):
@@ -291,26 +304,29 @@ class parameter_shift(object):
             p = p0.detach() + torch.tensor(0.0) #浮点副本，不改动原参数
             if len(p.shape) == 0:
                 #只有单个参数
-                self.cir.gate[idx].params_update(p + 0.5*torch.pi)
-                e1 = self.cir.cir_expectation(self.init_state, self.M)
-                self.cir.gate[idx].params_update(p - 0.5*torch.pi)
-                e2 = self.cir.cir_expectation(self.init_state, self.M)
+                grad = 0.0
+                for shift,coef in self._shift_rule(gate):
+                    self.cir.gate[idx].params_update(p + shift)
+                    e1 = self.cir.cir_expectation(self.init_state, self.M)
+                    self.cir.gate[idx].params_update(p - shift)
+                    e2 = self.cir.cir_expectation(self.init_state, self.M)
+                    grad = grad + coef*(e1 - e2)
                 self.cir.gate[idx].params_update(p0) #最后别忘了把参数恢复
-                grad_lst.append( 0.5*(e1 - e2) )
+                grad_lst.append( grad )
             
             elif len(p.shape) == 1:
                 #参数是个一维张量
                 for i,each_p in enumerate(p):
-                    p[i] = p[i] + 0.5*torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    e1 = self.cir.cir_expectation(self.init_state, self.M)
-                    
-                    p[i] = p[i] - 1.0*torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    e2 = self.cir.cir_expectation(self.init_state, self.M)
-                    
-                    p[i] = p[i] + 0.5*torch.pi
-                    grad_lst.append( 0.5*(e1 - e2) )
+                    dp = torch.zeros_like(p)
+                    dp[i] = 1.0
+                    grad = 0.0
+                    for shift,coef in self._shift_rule(gate):
+                        self.cir.gate[idx].params_update(p + shift*dp)
+                        e1 = self.cir.cir_expectation(self.init_state, self.M)
+                        self.cir.gate[idx].params_update(p - shift*dp)
+                        e2 = self.cir.cir_expectation(self.init_state, self.M)
+                        grad = grad + coef*(e1 - e2)
+                    grad_lst.append( grad )
                 self.cir.gate[idx].params_update(p0) #最后别忘了把参数恢复
             else:
                 raise ValueError('cal_params_grad: error about params shape')
-- 
2.43.0


From 1a2c0006b03f7abc076b747732d385f8203347c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 20/33] fix: cal_params_grad2 is exact for u1, cphase and cu3

---
 deepquantum/gates/qcircuit.py | 70 +++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 31 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 5391285..5e990c7 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -391,9 +391,37 @@ class parameter_shift(object):
                 
     
     
+    @staticmethod
+    def _derivative_rule(gate):
+        '''
+        返回[(shift,coef),...]，使得dU/dtheta等于sum coef*U(theta+shift)
+        '''
+        if isinstance(gate, (u1, cphase)): #矩阵元只含1和exp(i*theta)
+            return [(0.5*torch.pi, 0.5), (-0.5*torch.pi, -0.5)]
+        if isinstance(gate, cu3): #受控旋转，控制比特为0时不含参数
+            return [(1.0*torch.pi, 0.25), (-1.0*torch.pi, -0.25)]
+        return [(-1.0*torch.pi, -0.5)]
+    
+    
+    
+    def _overlap(self, save_dict, init_MPS, idx):
+        '''
+        第idx个gate作用到它之前的态上，再与反向演化到此处的态做内积，返回实部的2倍
+        '''
+        num_gates = len(self.cir.gate)
+        #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
+        if idx == 0:
+            MPS = copy.deepcopy( init_MPS )
+        else:
+            MPS = copy.deepcopy( save_dict[idx-1] )
+        psi1 = MPS2StateVec( self.cir.gate[idx].TN_operation( MPS ) )
+        psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
+        return 2.0*( psi2.conj() @ psi1.view(-1,1) ).squeeze().real
+    
+    
+    
     def cal_params_grad2(self,save_dict):
         grad_lst = []
-        num_gates = len(self.cir.gate)
         
         init_MPS = StateVec2MPS(self.init_state, self.cir.nqubits)
         for idx,gate in enumerate( self.cir.gate ):
@@ -407,20 +435,10 @@ class parameter_shift(object):
             p = p0.detach() + torch.tensor(0.0) #浮点副本，不改动原参数
             if len(p.shape) == 0:
                 #只有单个参数
-                p = p - torch.pi
-                self.cir.gate[idx].params_update(p)
-                
-                if idx == 0:
-                    MPS = copy.deepcopy( init_MPS )
-                    MPS = gate.TN_operation( MPS )
-                else:
-                    MPS = copy.deepcopy( save_dict[idx-1] )
-                    MPS = gate.TN_operation( MPS )
-                
-                psi1 = MPS2StateVec( MPS )
-                psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-                temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
-                temp = -1.0*temp.real
+                temp = 0.0
+                for shift,coef in self._derivative_rule(gate):
+                    self.cir.gate[idx].params_update(p + shift)
+                    temp = temp + coef*self._overlap(save_dict, init_MPS, idx)
                 
                 self.cir.gate[idx].params_update(p0) #最后别忘了把参数恢复
                 
@@ -429,22 +447,12 @@ class parameter_shift(object):
             elif len(p.shape) == 1:
                 #参数是个一维张量
                 for i,each_p in enumerate(p):
-                    
-                    p[i] = p[i] - torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
-                    if idx == 0:
-                        MPS = copy.deepcopy( init_MPS )
-                        MPS = gate.TN_operation( MPS )
-                    else:
-                        MPS = copy.deepcopy( save_dict[idx-1] )
-                        MPS = gate.TN_operation( MPS ) #后面需要-1j修正
-                    psi1 = MPS2StateVec( MPS )
-                    psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-                    temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze() 
-                    temp = -1.0*temp.real
-                    #本来取虚部变成取负实部，相当于修正了-1j
-                    p[i] = p[i] + torch.pi
+                    dp = torch.zeros_like(p)
+                    dp[i] = 1.0
+                    temp = 0.0
+                    for shift,coef in self._derivative_rule(gate):
+                        self.cir.gate[idx].params_update(p + shift*dp)
+                        temp = temp + coef*self._overlap(save_dict, init_MPS, idx)
                     
                     grad_lst.append( temp )
                 self.cir.gate[idx].params_update(p0) #最后别忘了把参数恢复
-- 
2.43.0


From 2b4876a2e84e11088d66d59e8371aa7a52533e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 21/33] fix: save_mid_MPS works when gate parameters are
 trainable

---
 deepquantum/gates/qcircuit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 5e990c7..b0b2b79 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -355,7 +355,7 @@ class parameter_shift(object):
                 MPS = oper.TN_operation(MPS)
                 #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存
                 if idx != num_gates-1 and cir.gate[idx+1].num_params != 0:
-                    save_dict[idx] = copy.deepcopy(MPS)
+                    save_dict[idx] = [t.detach().clone() for t in MPS]
             else:
                 raise ValueError(str(oper.info()['label'])
                                  +'-TN_evolution:some part of circuit do not support Tensor Network')
@@ -366,7 +366,7 @@ class parameter_shift(object):
         MPS = M_oper.TN_operation(MPS)
         #暂时只支持单比特PauliX、PauliY、PauliZ这些简单情况
         if cir.gate[num_gates-1].num_params != 0:
-            save_dict[num_gates-1] = copy.deepcopy(MPS)
+            save_dict[num_gates-1] = [t.detach().clone() for t in MPS]
             
         
         
@@ -377,7 +377,7 @@ class parameter_shift(object):
                 MPS = oper.TN_operation(MPS)
                 #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存
                 if idx != 0 and cir.gate[idx-1].num_params != 0:
-                    save_dict[2*num_gates-idx-1] = copy.deepcopy(MPS)
+                    save_dict[2*num_gates-idx-1] = [t.detach().clone() for t in MPS]
                     
             else:
                 raise ValueError(str(oper.info()['label'])
-- 
2.43.0


From 03da2bd33ce447599065d717b0b09a9be6f45d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 22/33] fix: functional layers of layers/qlayer.py build their
 matrices again

They called gate functions the legacy Circuit class no longer has.
---
 deepquantum/layers/qlayer.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/deepquantum/layers/qlayer.py b/deepquantum/layers/qlayer.py
index a33136c..245147e 100644
--- a/deepquantum/layers/qlayer.py
+++ b/deepquantum/layers/qlayer.py
@@ -8,7 +8,23 @@ Created on Tue Oct 26 10:00:55 2021
 import torch
 # import math
 # from qutorch.qgate import rx, ry, rz, multi_kron, cnot, cz, IsUnitary, Hadamard, rxx, ryy, rzz
-from deepquantum.gates import Circuit as cir
+from deepquantum.gates import qoperator as op
+from deepquantum.gates import qmath
+
+class cir(object):
+    '''
+    本文件中各layer函数所用的门矩阵
+    '''
+    multi_kron = staticmethod(qmath.multi_kron)
+    Hadamard = staticmethod(lambda: op.Hadamard().matrix)
+    rx = staticmethod(lambda theta: op.rx(theta).matrix)
+    ry = staticmethod(lambda theta: op.ry(theta).matrix)
+    rz = staticmethod(lambda theta: op.rz(theta).matrix)
+    rxx = staticmethod(lambda theta: op.rxx(theta).matrix)
+    ryy = staticmethod(lambda theta: op.ryy(theta).matrix)
+    rzz = staticmethod(lambda theta: op.rzz(theta).matrix)
+    cnot = staticmethod(lambda N,control,target: op.cnot(N,[control,target]).U_expand())
+    cz = staticmethod(lambda N,control,target: op.cz(N,[control,target]).U_expand())
 
 def XYZLayer(N, parameter_lst):
     if N < 1:
-- 
2.43.0


From 42a8e9820822b85191cb57a42c39d90e78577bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:38 +0000
Subject: [PATCH 23/33] fix: expval accepts a batch of state vectors as
 columns, as it documents

---
 deepquantum/gates/qmath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 04a9896..9906fa9 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -224,7 +224,8 @@ def _Zmeasure(n_qubit:int, ith=None):
 
 def expval(state, M, rho=False):
     if not rho: #输入态为态矢，而非密度矩阵
-        state = state.view(-1, 1)
+        if len(state.shape) != 2 or state.shape[0] != M.shape[0]:
+            state = state.reshape(-1, 1) #单个态矢；batch个态矢按列排列，不能view
         if len(state.shape) != 2: #state必须是二维张量，即便只有1个态矢也要view成(n,1)
             raise ValueError("state必须是二维张量,即便batch只有1个态矢也要view成(n,1)")
         else:   #state为batch_size个态矢，即二维张量
-- 
2.43.0


From 1df6b06780c8ed0ec7dec58b356fb51e83b89f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 24/33] fix: decompose in double precision, single precision
 SVD fails or returns nan on tiny singular values

---
 deepquantum/gates/qtensornetwork.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 6aead1d..1025744 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -12,6 +12,12 @@ import time
 
 from typing import List
 
+def _svd(tensor:torch.Tensor):
+    #单精度SVD对含极小(denormal)奇异值的矩阵可能不收敛，甚至返回nan，所以用双精度做分解
+    U,S,V = torch.svd(tensor.to(torch.complex128))
+    return U.to(tensor.dtype), S.to(tensor.real.dtype), V.to(tensor.dtype)
+
+
 def StateVec2MPS(psi:torch.Tensor, N:int, d:int=2)->List[torch.Tensor]:
     #t1 = time.time()
     #输入合法性检测：输入的态矢必须是1行2^N列的张量
@@ -32,7 +38,7 @@ def StateVec2MPS(psi:torch.Tensor, N:int, d:int=2)->List[torch.Tensor]:
             rst_lst.append(c_tensor.view(2,-1,c_tensor.shape[1]))
             continue
         
-        U,S,V = torch.svd( c_tensor )
+        U,S,V = _svd( c_tensor )
         V_d = V.permute(1,0).conj()
         D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
         #print(D)
@@ -95,7 +101,7 @@ def TensorDecompAfterTwoQbitGate(tensor:torch.Tensor):
     block2 = torch.cat((tensor[1,0],tensor[1,1]),dim=1)
     tensor = torch.cat((block1,block2),dim=0)
     
-    U,S,V = torch.svd( tensor )
+    U,S,V = _svd( tensor )
     V_d = V.permute(1,0).conj()
     D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
     #print('D: ',D)
@@ -134,7 +140,7 @@ def TensorDecompAfterThreeQbitGate(tensor:torch.Tensor):
             blks = torch.chunk(tensor, chunks=2, dim=1)
             tensor = torch.cat((blks[0], blks[1]), dim=0)
         if i != 2:
-            U,S,V = torch.svd( tensor )
+            U,S,V = _svd( tensor )
             V_d = V.permute(1,0).conj()
             D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
             S = torch.diag(S) + 0j
@@ -222,7 +228,7 @@ def Rho2MPS(Rho:torch.Tensor,N:int)->List[torch.Tensor]:
         NOTE:已知矩阵A做SVD分解得到U、S、V，若对10*A做SVD分解，将得到U,10*S,V
         所以，Rho的MPS和10*Rho的MPS是完全相同的
         '''
-        U,S,V = torch.svd(r_tensor)
+        U,S,V = _svd(r_tensor)
         #print(torch.max(S))
         V = V.permute(1,0).conj() #dag(V)
         D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
-- 
2.43.0


From 4439da0c6d115a590e7c93bc29393d76c3e27b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 25/33] fix: legacy multi_control_cnot records the gate like
 every other gate

---
 deepquantum/gates/qgate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index 3ba0f4e..1be88c0 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -323,7 +323,9 @@ class Circuit(object):
             self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='rzz'))
 
     def multi_control_cnot(self, control_lst, target):
-        self._add_u(self.multi_control_gate(self._x_gate(), self.n_qubits, control_lst, target))
+        u_matrix = self.multi_control_gate(self._x_gate(), self.n_qubits, control_lst, target)
+        self._add_gate('multi_control_cnot', list(control_lst) + [target], None)
+        self._add_u(u_matrix)
 
     def U(self):
         return self.gate_sequence_product()
-- 
2.43.0


From 785f5e204a91fcfac034a865e28389c61f7ccb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:54 +0000
Subject: [PATCH 26/33] fix: wires outside the register or listed twice are
 refused on every path

---
 deepquantum/embeddings/qembedding.py |  1 +
 deepquantum/gates/qoperator.py       | 31 ++++++++++++++++++++++++++++
 deepquantum/layers/qlayers.py        | 11 ++++++++++
 3 files changed, 43 insertions(+)

diff --git a/deepquantum/embeddings/qembedding.py b/deepquantum/embeddings/qembedding.py
index 6bbc076..d814cf4 100644
--- a/deepquantum/embeddings/qembedding.py
+++ b/deepquantum/embeddings/qembedding.py
@@ -66,6 +66,7 @@ class PauliEncoding(SingleGateLayer):
         
         if N < len(input_lst):
             raise ValueError("number of inputs must be less than number of qubits")
+        Operation.check_wires(N, wires)
         self.nqubits = N
         self.input_lst = input_lst
         self.pauli = pauli
diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index a61bc50..d7884c9 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -29,6 +29,15 @@ class Operator(object):
 
 class Operation(Operator):
     
+    @staticmethod
+    def check_wires(N,wires):
+        #每个qubit的索引号必须在0~N-1之间，且不能重复
+        wires = torch.as_tensor(wires).reshape(-1).tolist()
+        if len(wires) != 0 and (min(wires) < 0 or max(wires) > N-1):
+            raise ValueError("qubit index must between 0~N-1")
+        if len(set(wires)) != len(wires):
+            raise ValueError("the same qubit is used twice")
+    
     @staticmethod
     def two_qubit_control_gate(U,N,control,target):
         '''
@@ -78,6 +87,7 @@ class Operation(Operator):
         for each in control_lst:
             if each == target:
                 raise ValueError("control cannot be equal to target")
+        Operation.check_wires(N, control_lst)
         
         U = U + 0j
         one_one = torch.tensor( [[0,0],[0,1]] ) + 0j
@@ -115,6 +125,7 @@ class SingleGateOperation(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("SingleGateOperation input error! cannot TN_operation")
+        Operation.check_wires(self.nqubits, self.wires)
         # print(self.wires)
         # temp = MPS[self.wires]
         # temp =  torch.squeeze(self.matrix @ temp.permute(1,2,0).unsqueeze(-1),dim=3)
@@ -127,6 +138,7 @@ class SingleGateOperation(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("SingleGateOperation input error! cannot TN_contract")
+        Operation.check_wires(self.nqubits, self.wires)
         if batch_mod==False:
             permute_shape = list( range(self.nqubits) )
             permute_shape[self.wires] = self.nqubits - 1
@@ -665,6 +677,7 @@ class rxx(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_operation")
+        Operation.check_wires(self.nqubits, self.wires)
         if len(self.wires) != 2:
             raise ValueError("TN_operation: rxx gate must be applied on 2 qbits")
         #矩阵关于两个qubit对称，无需区分wires的先后顺序
@@ -673,6 +686,7 @@ class rxx(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
+        Operation.check_wires(self.nqubits, self.wires)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -809,6 +823,7 @@ class ryy(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("ryy gate input error! cannot TN_operation")
+        Operation.check_wires(self.nqubits, self.wires)
         if len(self.wires) != 2:
             raise ValueError("TN_operation: ryy gate must be applied on 2 qbits")
         #矩阵关于两个qubit对称，无需区分wires的先后顺序
@@ -817,6 +832,7 @@ class ryy(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
+        Operation.check_wires(self.nqubits, self.wires)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -951,6 +967,7 @@ class rzz(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rzz gate input error! cannot TN_operation")
+        Operation.check_wires(self.nqubits, self.wires)
         if len(self.wires) != 2:
             raise ValueError("TN_operation: rzz gate must be applied on 2 qbits")
         #矩阵关于两个qubit对称，无需区分wires的先后顺序
@@ -959,6 +976,7 @@ class rzz(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
+        Operation.check_wires(self.nqubits, self.wires)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -1085,6 +1103,7 @@ class cnot(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("cnot gate input error! cannot TN_operation")
+        Operation.check_wires(self.nqubits, self.wires)
         # control = self.wires[0]
         # target = self.wires[1]
         upqbit = min(self.wires)
@@ -1181,6 +1200,7 @@ class cnot(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("cnot gate input error! cannot TN_contract")
+        Operation.check_wires(self.nqubits, self.wires)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -1304,6 +1324,7 @@ class cz(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("TN_operation:cz gate input error! cannot expand")
+        Operation.check_wires(self.nqubits, self.wires)
         if len(self.wires) != 2:
             raise ValueError("TN_operation:cz gate must be applied on 2 qbits")
         upqbit = min(self.wires)
@@ -1333,6 +1354,7 @@ class cz(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("cz gate input error! cannot TN_contract")
+        Operation.check_wires(self.nqubits, self.wires)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -1462,6 +1484,7 @@ class cphase(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("TN_operation:cz gate input error! cannot expand")
+        Operation.check_wires(self.nqubits, self.wires)
         if len(self.wires) != 2:
             raise ValueError("TN_operation:cz gate must be applied on 2 qbits")
         upqbit = min(self.wires)
@@ -1491,6 +1514,7 @@ class cphase(Operation):
     def TN_contract(self,MPS:torch.Tensor, batch_mod:bool=False):
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("cphase gate input error! cannot TN_contract")
+        Operation.check_wires(self.nqubits, self.wires)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -1621,6 +1645,7 @@ class cu3(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("TN_operation: cu3 gate input error! cannot expand")
+        Operation.check_wires(self.nqubits, self.wires)
         if len(self.wires) != 2:
             raise ValueError("TN_operation: cu3 gate must be applied on 2 qbits")
         upqbit = min(self.wires)
@@ -1651,6 +1676,7 @@ class cu3(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("cu3 gate input error! cannot TN_contract")
+        Operation.check_wires(self.nqubits, self.wires)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -1777,6 +1803,7 @@ class SWAP(Operation):
     
     def U_expand(self):
         if self.nqubits != -1 and self.wires != -1:
+            Operation.check_wires(self.nqubits, self.wires)
             qbit1 = self.wires[0]
             qbit2 = self.wires[1]
             
@@ -1812,6 +1839,7 @@ class SWAP(Operation):
         '''
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("TN_operation: SWAP gate input error! cannot expand")
+        Operation.check_wires(self.nqubits, self.wires)
         if len(self.wires) != 2:
             raise ValueError("TN_operation: SWAP gate must be applied on 2 qbits")
         upqbit = min(self.wires)
@@ -1847,6 +1875,7 @@ class SWAP(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("SWAP gate input error! cannot TN_contract")
+        Operation.check_wires(self.nqubits, self.wires)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -1967,6 +1996,7 @@ class toffoli(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("toffoli gate input error! cannot TN_operation")
+        Operation.check_wires(self.nqubits, self.wires)
         sw = sorted(self.wires)
         upqbit = sw[0]
         midqbit = sw[1]
@@ -2040,6 +2070,7 @@ class toffoli(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("toffoli gate input error! cannot TN_contract")
+        Operation.check_wires(self.nqubits, self.wires)
         cqbit1 = self.wires[0]
         cqbit2 = self.wires[1]
         tqbit = self.wires[2]
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index cd29144..3cd060c 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -118,6 +118,7 @@ class XYZLayer(SingleGateLayer):
             raise ValueError("XYZLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("XYZLayer: number of wires must less than N")
+        Operation.check_wires(N, wires)
         self.label = "XYZLayer"
         
         self.nqubits = N
@@ -191,6 +192,7 @@ class ZYXLayer(SingleGateLayer):
             raise ValueError("ZYXLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("ZYXLayer: number of wires must less than N")
+        Operation.check_wires(N, wires)
         self.label = "ZYXLayer"
         
         self.nqubits = N
@@ -267,6 +269,7 @@ class YZYLayer(SingleGateLayer):
             raise ValueError("YZYLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("YZYLayer: number of wires must less than N")
+        Operation.check_wires(N, wires)
         self.label = "YZYLayer"
         
         self.nqubits = N
@@ -378,6 +381,7 @@ class XZXLayer(SingleGateLayer):
             raise ValueError("XZXLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("XZXLayer: number of wires must less than N")
+        Operation.check_wires(N, wires)
         self.label = "XZXLayer"
         
         self.nqubits = N
@@ -457,6 +461,7 @@ class XZLayer(SingleGateLayer):
             raise ValueError("XZLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("XZLayer: number of wires must less than N")
+        Operation.check_wires(N, wires)
         self.label = "XZLayer"
         
         self.nqubits = N
@@ -529,6 +534,7 @@ class ZXLayer(SingleGateLayer):
             raise ValueError("ZXLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("ZXLayer: number of wires must less than N")
+        Operation.check_wires(N, wires)
         self.label = "ZXLayer"
         
         self.nqubits = N
@@ -595,6 +601,7 @@ class HLayer(SingleGateLayer):
     def __init__(self,N,wires):
         if len(wires) > N:
             raise ValueError("HadamardLayer: number of wires must less than N")
+        Operation.check_wires(N, wires)
         
         self.label = "HadamardLayer"
         
@@ -643,6 +650,7 @@ class ring_of_cnot(TwoQbitGateLayer):
         
         if len(wires) > N:
             raise ValueError("ring_of_cnotLayer: number of wires must <= N")
+        Operation.check_wires(N, wires)
         if len(wires) < 2:
             raise ValueError("ring_of_cnotLayer: number of wires must >= 2")
         self.label = "ring_of_cnot_Layer"
@@ -797,6 +805,7 @@ class ring_of_cnot_dagger(TwoQbitGateLayer):
         
         if len(wires) > N:
             raise ValueError("ring_of_cnot_dagger: number of wires must <= N")
+        Operation.check_wires(N, wires)
         if len(wires) < 2:
             raise ValueError("ring_of_cnot_dagger: number of wires must >= 2")
         self.label = "ring_of_cnot_dagger"
@@ -904,6 +913,7 @@ class ring_of_cnot2(TwoQbitGateLayer):
         
         if len(wires) > N:
             raise ValueError("ring_of_cnot2Layer: number of wires must <= N")
+        Operation.check_wires(N, wires)
         if len(wires) < 2:
             raise ValueError("ring_of_cnot2Layer: number of wires must >= 2")
         self.label = "ring_of_cnot2_Layer"
@@ -979,6 +989,7 @@ class BasicEntangleLayer(TwoQbitGateLayer):
             raise ValueError("BasicEntangleLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("BasicEntangleLayer: number of wires must <= N")
+        Operation.check_wires(N, wires)
         if len(wires) < 2:
             raise ValueError("BasicEntangleLayer: number of wires must >= 2")
         if repeat < 1:
-- 
2.43.0


From 3dec061fa54ae72c84d041b7f803da087e2e01b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:15 +0000
Subject: [PATCH 27/33] fix: a wrong number of parameters is refused on
 construction and on update

---
 deepquantum/gates/qoperator.py | 25 +++++++++++++++++++++++++
 deepquantum/layers/qlayers.py  |  7 +++++++
 2 files changed, 32 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index d7884c9..409b5cd 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -38,6 +38,11 @@ class Operation(Operator):
         if len(set(wires)) != len(wires):
             raise ValueError("the same qubit is used twice")
     
+    @staticmethod
+    def check_params(params,num_params):
+        if torch.as_tensor(params).numel() != num_params:
+            raise ValueError("number of parameters not match")
+    
     @staticmethod
     def two_qubit_control_gate(U,N,control,target):
         '''
@@ -353,6 +358,7 @@ class rx(SingleGateOperation):
         self.self_inverse = False
         
         
+        Operation.check_params(theta, 1)
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
@@ -381,6 +387,7 @@ class rx(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        Operation.check_params(params, 1)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliX().matrix + 0j
@@ -404,6 +411,7 @@ class ry(SingleGateOperation):
         self.num_wires = 1            
         self.self_inverse = False
         
+        Operation.check_params(theta, 1)
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
@@ -431,6 +439,7 @@ class ry(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        Operation.check_params(params, 1)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliY().matrix + 0j
@@ -454,6 +463,7 @@ class rz(SingleGateOperation):
         self.num_wires = 1
         self.self_inverse = False
         
+        Operation.check_params(theta, 1)
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
@@ -480,6 +490,7 @@ class rz(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        Operation.check_params(params, 1)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliZ().matrix + 0j
@@ -503,6 +514,7 @@ class u1(SingleGateOperation):
         
         self.nqubits = N
         self.wires = wires
+        Operation.check_params(theta, 1)
         theta = theta + torch.tensor(0.0)
         self.params = theta
         
@@ -534,6 +546,7 @@ class u1(SingleGateOperation):
         return info
     
     def params_update(self,theta):
+        Operation.check_params(theta, 1)
         theta = theta + torch.tensor(0.0)
         self.params = theta
         
@@ -559,6 +572,7 @@ class u3(SingleGateOperation):
         self.num_wires = 1
         self.self_inverse = False
         
+        Operation.check_params(theta_lst, 3)
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
         self.nqubits = N
@@ -597,6 +611,7 @@ class u3(SingleGateOperation):
     
     def params_update(self,theta_lst):
         
+        Operation.check_params(theta_lst, 3)
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
         self.params = theta_lst
@@ -647,6 +662,7 @@ class rxx(Operation):
         self.num_wires = 2           
         self.self_inverse = False
     
+        Operation.check_params(theta, 1)
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
@@ -764,6 +780,7 @@ class rxx(Operation):
         return info
     
     def params_update(self,params):
+        Operation.check_params(params, 1)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliX().matrix,PauliX().matrix) + 0j
@@ -791,6 +808,7 @@ class ryy(Operation):
         self.num_wires = 2           
         self.self_inverse = False
         
+        Operation.check_params(theta, 1)
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
@@ -910,6 +928,7 @@ class ryy(Operation):
         return info
     
     def params_update(self,params):
+        Operation.check_params(params, 1)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliY().matrix,PauliY().matrix) + 0j
@@ -937,6 +956,7 @@ class rzz(Operation):
         self.num_wires = 2           
         self.self_inverse = False
         
+        Operation.check_params(theta, 1)
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
@@ -1054,6 +1074,7 @@ class rzz(Operation):
         return info
     
     def params_update(self,params):
+        Operation.check_params(params, 1)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliZ().matrix,PauliZ().matrix) + 0j
@@ -1452,6 +1473,7 @@ class cphase(Operation):
         self.num_wires = 2          
         self.self_inverse = False
         
+        Operation.check_params(theta, 1)
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
@@ -1593,6 +1615,7 @@ class cphase(Operation):
         return info
     
     def params_update(self,theta):
+        Operation.check_params(theta, 1)
         theta = theta + torch.tensor(0.0)
         self.params = theta
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
@@ -1616,6 +1639,7 @@ class cu3(Operation):
         self.nqubits = N
         self.wires = wires
         
+        Operation.check_params(theta_lst, 3)
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
         self.params = theta_lst
@@ -1754,6 +1778,7 @@ class cu3(Operation):
         return info
     
     def params_update(self,theta_lst):
+        Operation.check_params(theta_lst, 3)
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
         self.params = theta_lst
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 3cd060c..79e4b5a 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -180,6 +180,7 @@ class XYZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params(params_lst, self.num_params)
         self.params = params_lst
         self.num_params = len(params_lst)
     
@@ -254,6 +255,7 @@ class ZYXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params(params_lst, self.num_params)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -361,6 +363,7 @@ class YZYLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params(params_lst, self.num_params)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -442,6 +445,7 @@ class XZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params(params_lst, self.num_params)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -512,6 +516,7 @@ class XZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params(params_lst, self.num_params)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -587,6 +592,7 @@ class ZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params(params_lst, self.num_params)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -1028,6 +1034,7 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params(params_lst, self.num_params)
         self.num_params = len(params_lst)
         self.params = params_lst
         self.part1_lst, self.part2_lst = [], []
-- 
2.43.0


From 0d3ba68751a5dffee6d4cd6890ef5c6b1bfa92e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:43 +0000
Subject: [PATCH 28/33] fix: two-qubit gates refuse a list of one or more than
 two wires

---
 deepquantum/gates/qoperator.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 409b5cd..aacd4a3 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -666,6 +666,8 @@ class rxx(Operation):
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
+        if wires != -1 and len(wires) != 2:
+            raise ValueError("rxx gate must be applied on 2 qubits")
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(theta/2.0)*torch.kron(PauliX().matrix,PauliX().matrix) + 0j
@@ -812,6 +814,8 @@ class ryy(Operation):
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
+        if wires != -1 and len(wires) != 2:
+            raise ValueError("ryy gate must be applied on 2 qubits")
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(theta/2.0)*torch.kron(PauliY().matrix,PauliY().matrix) + 0j
@@ -960,6 +964,8 @@ class rzz(Operation):
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
+        if wires != -1 and len(wires) != 2:
+            raise ValueError("rzz gate must be applied on 2 qubits")
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(theta/2.0)*torch.kron(PauliZ().matrix,PauliZ().matrix) + 0j
@@ -1104,6 +1110,8 @@ class cnot(Operation):
         
         self.nqubits = N
         self.wires = wires
+        if wires != -1 and len(wires) != 2:
+            raise ValueError("cnot gate must be applied on 2 qubits")
         self.matrix = torch.tensor([[1,0,0,0],\
                                    [0,1,0,0],\
                                    [0,0,0,1],\
@@ -1325,6 +1333,8 @@ class cz(Operation):
         
         self.nqubits = N
         self.wires = wires
+        if wires != -1 and len(wires) != 2:
+            raise ValueError("cz gate must be applied on 2 qubits")
         self.matrix = torch.tensor([[1,0,0,0],\
                                    [0,1,0,0],\
                                    [0,0,1,0],\
@@ -1477,6 +1487,8 @@ class cphase(Operation):
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
+        if wires != -1 and len(wires) != 2:
+            raise ValueError("cphase gate must be applied on 2 qubits")
         self.params = theta
         
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
@@ -1638,6 +1650,8 @@ class cu3(Operation):
         
         self.nqubits = N
         self.wires = wires
+        if wires != -1 and len(wires) != 2:
+            raise ValueError("cu3 gate must be applied on 2 qubits")
         
         Operation.check_params(theta_lst, 3)
         if type(theta_lst) == type([1]):
@@ -1819,6 +1833,8 @@ class SWAP(Operation):
         
         self.nqubits = N
         self.wires = wires
+        if wires != -1 and len(wires) != 2:
+            raise ValueError("SWAP gate must be applied on 2 qubits")
         self.matrix = torch.tensor([[1,0,0,0],\
                                    [0,0,1,0],\
                                    [0,1,0,0],\
-- 
2.43.0


From e81583a8fc2489cae43c8711f5c3441ed25d3289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 29/33] fix: partial traces refuse non-square matrices and
 qubits listed twice

---
 deepquantum/gates/qmath.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 9906fa9..108f83f 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -107,6 +107,8 @@ def ptrace(rhoAB, dimA, dimB):
     """
     mat_dim_A = 2 ** dimA
     mat_dim_B = 2 ** dimB
+    if rhoAB.shape != (mat_dim_A * mat_dim_B, mat_dim_A * mat_dim_B):
+        raise ValueError('rho dim error')
 
     id1 = torch.eye(mat_dim_A, requires_grad=True) + 0.j
     id2 = torch.eye(mat_dim_B, requires_grad=True) + 0.j
@@ -128,10 +130,14 @@ def partial_trace_old(rho,N,trace_lst):
     #输入合法性检测
     if abs(torch.trace(rho) - 1) > 1e-4:
         raise ValueError("trace of density matrix must be 1")
-    if rho.shape[0] != 2**N:
+    if rho.shape != (2**N, 2**N):
         raise ValueError('rho dim error')
     if len(trace_lst)!=0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
+    if len(trace_lst) != 0 and min(trace_lst) < 0:
+        raise ValueError('element in trace_lst must not be negative')
+    if len(set(trace_lst)) != len(trace_lst):
+        raise ValueError('the same qubit is traced out twice')
     
     trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
@@ -158,10 +164,14 @@ def partial_trace(rho, N, trace_lst):
     #输入合法性检测
     if abs(torch.trace(rho) - 1) > 1e-4:
         raise ValueError("trace of density matrix must be 1")
-    if rho.shape[0] != 2**N:
+    if rho.shape != (2**N, 2**N):
         raise ValueError('rho dim error')
     if len(trace_lst) != 0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
+    if len(trace_lst) != 0 and min(trace_lst) < 0:
+        raise ValueError('element in trace_lst must not be negative')
+    if len(set(trace_lst)) != len(trace_lst):
+        raise ValueError('the same qubit is traced out twice')
     
     trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
-- 
2.43.0


From 73e88ef2f31324fcaa0c0fb8dccc84f96fe3ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 30/33] fix: expval refuses observables and density matrices of
 the wrong shape

---
 deepquantum/gates/qmath.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 108f83f..2bd46c1 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -233,6 +233,8 @@ def _Zmeasure(n_qubit:int, ith=None):
 
 
 def expval(state, M, rho=False):
+    if len(M.shape) != 2 or M.shape[0] != M.shape[1]:
+        raise ValueError("observable must be a square matrix")
     if not rho: #输入态为态矢，而非密度矩阵
         if len(state.shape) != 2 or state.shape[0] != M.shape[0]:
             state = state.reshape(-1, 1) #单个态矢；batch个态矢按列排列，不能view
@@ -245,6 +247,8 @@ def expval(state, M, rho=False):
             return rst
                   
     else:   #state是1个密度矩阵，此时不支持batch
+        if state.shape != M.shape:
+            raise ValueError("dimension of density matrix and observable not match")
         if torch.abs(torch.trace(state) - 1) > 1e-4:
             raise ValueError("trace of density matrix must be 1")
         return torch.trace(state @ M).real
-- 
2.43.0


From 1bd7427708a4f23455be9f349aeacf24c9146c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 31/33] fix: MPS_inner_product and MPS_expec refuse arguments
 that do not match the MPS

---
 deepquantum/gates/qtensornetwork.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 1025744..8139d11 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -159,6 +159,8 @@ def MPS_inner_product(ketMPS,braMPS):
     MPS做内积完全没必要，不如直接恢复成state vector再做内积
     '''
     #从左到右逐个qubit收缩，bond dimension为1或只有1个qubit时同样适用
+    if len(ketMPS) != len(braMPS):
+        raise ValueError('MPS_inner_product: both MPS must have the same number of qubits')
     t = torch.ones(1, 1, dtype=ketMPS[0].dtype)
     for ket,bra in zip(ketMPS,braMPS):
         t = torch.einsum('ab,sac,sbd->cd',[t,bra.conj(),ket])
@@ -171,6 +173,10 @@ def MPS_expec(MPS,wires:List[int],local_obserable:List[torch.Tensor]):
     local_obserable是一个包含局部力学量(针对单个qubit的力学量，一个2X2矩阵)的list
     wires也是一个list，表明每个局部力学量作用在哪个qubit上
     '''
+    if len(wires) != len(local_obserable):
+        raise ValueError('MPS_expec: one local observable per wire')
+    if len(wires) != 0 and (min(wires) < 0 or max(wires) > len(MPS)-1):
+        raise ValueError('MPS_expec: wires must between 0~N-1')
     SV0 = MPS2StateVec(MPS).view(1,-1)
     MPS = list(MPS) #不改变输入的MPS
     
-- 
2.43.0


From 792b005713dffa48f3187b032b59d97a0e466d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 32/33] fix: TN_contract_evolution refuses indices that are not
 qubits

---
 deepquantum/gates/qcircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index b0b2b79..a70cba7 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -84,6 +84,8 @@ class Circuit(object):
             assert len(MPS.shape) == self.nqubits
         else:
             assert len(MPS.shape) == self.nqubits+1
+        if any(dim != 2 for dim in MPS.shape[len(MPS.shape)-self.nqubits:]):
+            raise ValueError('TN_contract_evolution: every qubit index must have dimension 2')
         for idx,oper in enumerate(self.gate):
             if oper.supportTN == True:
                 #t = time.time()
-- 
2.43.0


From f32c22cf029d580d6ee15bcdeeba22b5c3656f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:02 +0000
Subject: [PATCH 33/33] fix: TN_evolution leaves the MPS as it was when it
 refuses the circuit

---
 deepquantum/gates/qcircuit.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index a70cba7..15d3488 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -65,15 +65,20 @@ class Circuit(object):
         if len(MPS) != self.nqubits:
             raise ValueError('TN_evolution:MPS tensor list must have N elements!')
         #MPS1 = copy.deepcopy(MPS)
-        for idx,oper in enumerate(self.gate):
-            #print(idx)
-            if oper.supportTN == True:
-                MPS = oper.TN_operation(MPS)
-                # psi_mid = MPS2StateVec(MPS)
-                # print(idx,' : ',psi_mid.view(-1))
-            else:
-                raise ValueError(str(oper.info()['label'])
-                                 +'-TN_evolution:some part of circuit do NOT support Tensor Network')
+        MPS_in, saved = MPS, list(MPS)
+        try:
+            for idx,oper in enumerate(self.gate):
+                #print(idx)
+                if oper.supportTN == True:
+                    MPS = oper.TN_operation(MPS)
+                    # psi_mid = MPS2StateVec(MPS)
+                    # print(idx,' : ',psi_mid.view(-1))
+                else:
+                    raise ValueError(str(oper.info()['label'])
+                                     +'-TN_evolution:some part of circuit do NOT support Tensor Network')
+        except Exception:
+            MPS_in[:] = saved #拒绝演化时，不能留下只演化了一半的MPS
+            raise
         return MPS
     
     
-- 
2.43.0

