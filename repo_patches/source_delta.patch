From 823ddf58d3dd167fde9cb80b6b109a66a9bae73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 01/23] fix: measure qubit 0 alone when it is the requested
 index

---
 deepquantum/gates/qmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 0c1fd99..18f4970 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -208,7 +208,7 @@ def _Zmeasure(n_qubit:int, ith=None):
     #生成测量力学量的列表
     #print(n_qubit,type(n_qubit))
     M_lst = []
-    if not ith:
+    if not ith and type(ith) != int:
         for i in range(n_qubit):
             Mi = dq.PauliZ(n_qubit, i).U_expand()
             M_lst.append(Mi)
-- 
2.43.0


From a568ff7049e75df78ed03fd0ea2bc9609bcf69b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 02/23] fix: measure keeps the autograd graph of the state

---
 deepquantum/gates/qmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 18f4970..47392e8 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -250,7 +250,7 @@ def measure(n_qubit, state, ith=None):
     M_lst = _Zmeasure(n_qubit, ith)
     for Mi in M_lst:
         measure_rst.append(expval(state, Mi, rho=rho))
-    return torch.tensor(measure_rst)
+    return torch.stack(measure_rst)
 
 if __name__ == '__main__':
     
-- 
2.43.0


From 045a2cf0a0f33ac6fc664b40b65b10a49e54a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 03/23] fix: cphase and u1 keep the autograd graph in U_expand
 and params_update

---
 deepquantum/gates/qoperator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 786d458..0b04ed4 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -526,7 +526,7 @@ class u1(SingleGateOperation):
         self.params = theta
         
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0],[0,exp_itheta]]) + 0j
+        self.matrix = torch.eye(2,2) + (exp_itheta-1)*torch.tensor([[0,0],[0,1]])
 
 
 
@@ -1407,7 +1407,7 @@ class cphase(Operation):
     def U_expand(self):
         if self.nqubits != -1 and self.wires != -1:
             exp_itheta = torch.cos(self.params) + 1j * torch.sin(self.params)
-            phase_gate = torch.tensor( [[1,0],[0,exp_itheta]] ) + 0j
+            phase_gate = torch.eye(2,2) + (exp_itheta-1)*torch.tensor([[0,0],[0,1]])
             control = self.wires[0]
             target = self.wires[1]
             return Operation.two_qubit_control_gate( phase_gate, self.nqubits, control, target )
@@ -1527,10 +1527,11 @@ class cphase(Operation):
         theta = theta + torch.tensor(0.0)
         self.params = theta
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0,0,0],\
-                                    [0,1,0,0],\
-                                    [0,0,1,0],\
-                                    [0,0,0,exp_itheta]]) + 0j
+        mt = torch.tensor([[0,0,0,0],\
+                           [0,0,0,0],\
+                           [0,0,0,0],\
+                           [0,0,0,1]])
+        self.matrix = torch.eye(4,4) + (exp_itheta-1)*mt
 
 
 
-- 
2.43.0


From df01c265a2f784aa2101561917454b1c5bfa243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 04/23] fix: u3 and cu3 daggers keep the autograd graph

---
 deepquantum/gates/qoperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 0b04ed4..d0ebca7 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -573,7 +573,7 @@ class u3(SingleGateOperation):
     
     def operation_dagger(self):
         theta, phi, lambd = self.params[0],self.params[1],self.params[2]
-        return u3([-theta,-lambd,-phi],self.nqubits,self.wires)
+        return u3(torch.stack([-theta,-lambd,-phi]),self.nqubits,self.wires)
     
     
     def info(self):
@@ -1675,7 +1675,7 @@ class cu3(Operation):
     
     def operation_dagger(self):
         theta, phi, lambd = self.params[0],self.params[1],self.params[2]
-        return cu3([-theta,-lambd,-phi],self.nqubits,self.wires)
+        return cu3(torch.stack([-theta,-lambd,-phi]),self.nqubits,self.wires)
     
     def info(self):
         #将门的信息整合后return，用来添加到circuit的gate_lst中
-- 
2.43.0


From be615a7ad5c64a5ca5083bfbcd1a6675a11ec7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 05/23] fix: layer daggers work with parameters that track
 gradients

---
 deepquantum/layers/qlayers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 307f8bd..c144638 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -169,7 +169,7 @@ class XYZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return ZYXLayer(self.nqubits,self.wires,params_tensor)
@@ -242,7 +242,7 @@ class ZYXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XYZLayer(self.nqubits,self.wires,params_tensor)
@@ -348,7 +348,7 @@ class YZYLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return YZYLayer(self.nqubits,self.wires,params_tensor)
@@ -428,7 +428,7 @@ class XZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XZXLayer(self.nqubits,self.wires,params_tensor)
@@ -497,7 +497,7 @@ class XZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return ZXLayer(self.nqubits,self.wires,params_tensor)
@@ -571,7 +571,7 @@ class ZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return XZLayer(self.nqubits,self.wires,params_tensor)
-- 
2.43.0


From 65647c0f068afeb4815e05fbdb364b8c97b53059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 06/23] fix: rxx, ryy and rzz can be applied to a matrix
 product state

They declare supportTN but had no TN_operation, so circuit evolution failed.
---
 deepquantum/gates/qoperator.py | 60 ++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index d0ebca7..4b2824a 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -641,6 +641,26 @@ class rxx(Operation):
         else:
             raise ValueError("Rxx gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("rxx gate input error! cannot TN_operation")
+        upqbit = min(self.wires)
+        downqbit = max(self.wires)
+        for i in range(upqbit,downqbit-1):
+            MPS = SWAP(self.nqubits,[i,i+1]).TN_operation(MPS)
+        
+        temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+        shape = temp.shape
+        temp = temp.view(shape[0],shape[1],shape[2]*shape[3],1)
+        temp = self.matrix @ temp
+        temp = temp.view(shape[0],shape[1],shape[2],shape[3])
+        temp = temp.permute(2,3,0,1)
+        MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+        
+        for i in range(downqbit-1,upqbit,-1):
+            MPS = SWAP(self.nqubits,[i-1,i]).TN_operation(MPS)
+        return MPS
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -777,6 +797,26 @@ class ryy(Operation):
     
     
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("ryy gate input error! cannot TN_operation")
+        upqbit = min(self.wires)
+        downqbit = max(self.wires)
+        for i in range(upqbit,downqbit-1):
+            MPS = SWAP(self.nqubits,[i,i+1]).TN_operation(MPS)
+        
+        temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+        shape = temp.shape
+        temp = temp.view(shape[0],shape[1],shape[2]*shape[3],1)
+        temp = self.matrix @ temp
+        temp = temp.view(shape[0],shape[1],shape[2],shape[3])
+        temp = temp.permute(2,3,0,1)
+        MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+        
+        for i in range(downqbit-1,upqbit,-1):
+            MPS = SWAP(self.nqubits,[i-1,i]).TN_operation(MPS)
+        return MPS
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -911,6 +951,26 @@ class rzz(Operation):
         else:
             raise ValueError("Rzz gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("rzz gate input error! cannot TN_operation")
+        upqbit = min(self.wires)
+        downqbit = max(self.wires)
+        for i in range(upqbit,downqbit-1):
+            MPS = SWAP(self.nqubits,[i,i+1]).TN_operation(MPS)
+        
+        temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+        shape = temp.shape
+        temp = temp.view(shape[0],shape[1],shape[2]*shape[3],1)
+        temp = self.matrix @ temp
+        temp = temp.view(shape[0],shape[1],shape[2],shape[3])
+        temp = temp.permute(2,3,0,1)
+        MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+        
+        for i in range(downqbit-1,upqbit,-1):
+            MPS = SWAP(self.nqubits,[i-1,i]).TN_operation(MPS)
+        return MPS
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
-- 
2.43.0


From a55939fa2dbd9022053e452890856044dccd8e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 07/23] fix: clearing a circuit also clears its parameter
 bookkeeping

---
 deepquantum/gates/qcircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6396bba..6dd59ae 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -152,6 +152,8 @@ class Circuit(object):
     
     def clear(self):
         self.gate = []
+        self.cir_params = {}
+        self.cir_num_params = 0
         #self._U = torch.tensor(1.0) + 0j
 
         
-- 
2.43.0


From 03b3c32b76f8e293ddb08c96db2682ee6922754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 08/23] fix: PrepareRho conjugates the bra

---
 deepquantum/embeddings/qstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/embeddings/qstate.py b/deepquantum/embeddings/qstate.py
index e1d90b9..2fbe998 100644
--- a/deepquantum/embeddings/qstate.py
+++ b/deepquantum/embeddings/qstate.py
@@ -11,7 +11,7 @@ def PrepareState(state):
 
 def PrepareRho(state):
     basic_rho = PrepareState(state).unsqueeze(0)
-    return basic_rho.T @ basic_rho  # out-produt
+    return basic_rho.T @ basic_rho.conj()  # out-produt
 
 
 
-- 
2.43.0


From 9adac0a124dd3fedbd202ee75f07be37be283a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 09/23] fix: gram_encoding returns a Hermitian matrix for
 normalised complex input

---
 deepquantum/embeddings/qembedding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deepquantum/embeddings/qembedding.py b/deepquantum/embeddings/qembedding.py
index 6bbc076..527d07b 100644
--- a/deepquantum/embeddings/qembedding.py
+++ b/deepquantum/embeddings/qembedding.py
@@ -47,6 +47,7 @@ def gram_encoding(x):
     perform L2 regularization on x, x为complex
     可以将n’×n’的Gram半正定矩阵转换为n’×n’的量子态密度矩阵
     """
+    x0 = x
     x = x.T@x 
     
     with torch.no_grad():
@@ -58,7 +59,7 @@ def gram_encoding(x):
             xdsn2 = xdsn @ dag(xdsn)                    #dag() 自定义函数
             xdsn2 = xdsn2.type(dtype=torch.complex64)
         else:
-            xdsn2 = x.type(dtype=torch.complex64)
+            xdsn2 = (x0.T@x0.conj()).type(dtype=torch.complex64)
     return xdsn2
 
 class PauliEncoding(SingleGateLayer):
-- 
2.43.0


From e9483ab2e7819ed53974faaf0ee051c600bccd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 10/23] fix: MPS_expec no longer modifies the caller's MPS

---
 deepquantum/gates/qtensornetwork.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index ed96e33..7ac602d 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -201,6 +201,7 @@ def MPS_expec(MPS,wires:List[int],local_obserable:List[torch.Tensor]):
     wires也是一个list，表明每个局部力学量作用在哪个qubit上
     '''
     SV0 = MPS2StateVec(MPS).view(1,-1)
+    MPS = list(MPS)
     
     for i,qbit in enumerate(wires):
         temp = MPS[qbit]
-- 
2.43.0


From 93133251854320611634e293ec362496a5f99a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 11/23] fix: legacy rxx/ryy/rzz accept qubit 0 as second qubit

---
 deepquantum/gates/qgate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index 2690710..6c4f084 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -263,7 +263,7 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
+        if target_qubit02 is None:
             target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
@@ -283,7 +283,7 @@ class Circuit(object):
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
 
-        if not target_qubit02:
+        if target_qubit02 is None:
             target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
@@ -304,7 +304,7 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
+        if target_qubit02 is None:
             target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
-- 
2.43.0


From cda8d769297e2a30f7663ea39be730d489334481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 12/23] fix: legacy cnot and cz refuse an unavailable control
 qubit

---
 deepquantum/gates/qgate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index 6c4f084..e7c13de 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -208,7 +208,8 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(control_qubit, int), \
             "control qubit is not integer"
-        assert control_qubit <= self.n_qubits
+        assert 0 <= control_qubit < self.n_qubits, \
+            "control qubit is not available"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
         self._add_gate('cnot', [control_qubit, target_qubit],None)
@@ -243,7 +244,8 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(control_qubit, int), \
             "control qubit is not integer"
-        assert control_qubit <= self.n_qubits
+        assert 0 <= control_qubit < self.n_qubits, \
+            "control qubit is not available"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
 
-- 
2.43.0


From 02f0786f874c411a7d278a0df0af9f8e97ba92d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 13/23] fix: legacy multi_control_cnot is recorded in the gate
 list

---
 deepquantum/gates/qgate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index e7c13de..a7ae525 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -321,6 +321,7 @@ class Circuit(object):
             self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='rzz'))
 
     def multi_control_cnot(self, control_lst, target):
+        self._add_gate('multi_control_cnot', list(control_lst) + [target], None)
         self._add_u(self.multi_control_gate(self._x_gate(), self.n_qubits, control_lst, target))
 
     def U(self):
-- 
2.43.0


From f3c37af2e8c9f86e5c659e7737071fc1afeb9536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 14/23] fix: SWAP expansion refuses invalid wires

---
 deepquantum/gates/qoperator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 4b2824a..f2c22b7 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -1794,6 +1794,10 @@ class SWAP(Operation):
         if self.nqubits != -1 and self.wires != -1:
             qbit1 = self.wires[0]
             qbit2 = self.wires[1]
+            if min(qbit1,qbit2) < 0 or max(qbit1,qbit2) > self.nqubits - 1:
+                raise ValueError("qbit index must between 0~N-1")
+            if qbit1 == qbit2:
+                raise ValueError("qbit1 cannot be equal to qbit2")
             
             zero_zero = torch.tensor( [[1,0],[0,0]] ) + 0j
             one_one = torch.tensor( [[0,0],[0,1]] ) + 0j
-- 
2.43.0


From b3fe1ad980feb5c68fb02f8af4cb7c6d6c122bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 15/23] fix: rxx, ryy and rzz check the range of their second
 wire

---
 deepquantum/gates/qoperator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index f2c22b7..848d3de 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -628,7 +628,7 @@ class rxx(Operation):
         if self.nqubits != -1 and self.wires != -1:
             if self.nqubits < 1:
                 raise ValueError("number of qubits N must be >= 1")
-            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[0] > self.nqubits - 1:
+            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[1] > self.nqubits - 1:
                 raise ValueError("qbit index must between 0~N-1")
             if self.wires[0] == self.wires[1]:
                 raise ValueError("qbit1 cannot be equal to qbit2")
@@ -782,7 +782,7 @@ class ryy(Operation):
         if self.nqubits != -1 and self.wires != -1:
             if self.nqubits < 1:
                 raise ValueError("number of qubits N must be >= 1")
-            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[0] > self.nqubits - 1:
+            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[1] > self.nqubits - 1:
                 raise ValueError("qbit index must between 0~N-1")
             if self.wires[0] == self.wires[1]:
                 raise ValueError("qbit1 cannot be equal to qbit2")
@@ -938,7 +938,7 @@ class rzz(Operation):
         if self.nqubits != -1 and self.wires != -1:
             if self.nqubits < 1:
                 raise ValueError("number of qubits N must be >= 1")
-            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[0] > self.nqubits - 1:
+            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[1] > self.nqubits - 1:
                 raise ValueError("qbit index must between 0~N-1")
             if self.wires[0] == self.wires[1]:
                 raise ValueError("qbit1 cannot be equal to qbit2")
-- 
2.43.0


From aaa8bb41da47a747d14c1a204daa1c55aab9d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 16/23] fix: quanvolution only visits windows that fit in the
 image

---
 deepquantum/nn/modules/quanv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/nn/modules/quanv.py b/deepquantum/nn/modules/quanv.py
index f3a3014..15c2923 100644
--- a/deepquantum/nn/modules/quanv.py
+++ b/deepquantum/nn/modules/quanv.py
@@ -90,8 +90,8 @@ class QuanConv2D(nn.Module):
 
         out = torch.zeros((batch, out_channel, len_x_out, len_y_out))
         for batch_i in range(batch):
-            for j in range(0, len_x_in, self.stride):
-                for k in range(0, len_y_in, self.stride):
+            for j in range(0, len_x_in - self.kernel_size + 1, self.stride):
+                for k in range(0, len_y_in - self.kernel_size + 1, self.stride):
 
                     x = input[batch_i, 0, j:j+self.kernel_size, k:k+self.kernel_size].reshape(-1) #[batch,channel,x,y]
                     # print("x::", x, j, j+self.kernel_size, k, k+self.kernel_size)
-- 
2.43.0


From f15d865ab907ae51a216978a36afb7ed3f04aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 17/23] fix: BasicEntangleLayer accepts a parameter list like
 the other layers

---
 deepquantum/layers/qlayers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index c144638..12ec212 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -985,6 +985,9 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        #如果是列表，先转成tensor
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.num_params = len(params_lst)
         self.params = params_lst
         self.repeat = repeat
-- 
2.43.0


From 35ea4bee03abde5fc2ad829ea59f4687426b3dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:53 +0000
Subject: [PATCH 18/23] fix: MPS_inner_product handles product states and a
 single qubit

squeeze() dropped bond axes of dimension one, and one site raised UnboundLocalError.
---
 deepquantum/gates/qtensornetwork.py | 42 ++++-------------------------
 1 file changed, 5 insertions(+), 37 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 7ac602d..c0ab907 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -154,44 +154,12 @@ def MPS_inner_product(ketMPS,braMPS):
     '''
     #上限12个qubit
     N = len(ketMPS)
-    lst = []
+    #t的两个指标分别是bra、ket当前位置左侧的bond，边界bond维数为1
+    t = ketMPS[0].new_ones(1,1)
     for i in range(N):
-        t1 = ketMPS[i]
-        t2 = braMPS[i]
-        t1 = t1.permute(1,2,0)
-        t2 = t2.permute(1,2,0)
-        
-        for j in range(3):
-            t1 = t1.unsqueeze(2*j+1)
-            t2 = t2.unsqueeze(2*j)
-        qbit_tensor = (t2.conj() @ t1).squeeze()
-        lst.append(qbit_tensor)
-    
-    for i in range(len(lst)-1):
-        if i == 0:
-            t = lst[i]
-            
-        t_nxt = lst[i+1]
-        if i != len(lst) - 2:
-            t_nxt = t_nxt.permute(2,3,0,1)
-        
-        t = t.unsqueeze(-2).unsqueeze(-4) #1212
-        t_nxt = t_nxt.unsqueeze(-1).unsqueeze(-3) #442121
-        
-        temp = t @ t_nxt #442211
-        temp = temp.squeeze() #4422
-        if i != len(lst) - 2:
-            '''
-            einsum高阶张量求迹，TZH我的超人！！！
-            '''
-            t = torch.einsum('abii->ab',temp)
-            # for k in range(temp.shape[2]):
-            #     if k == 0:
-            #         t = temp[:,:,0,0]
-            #     else:
-            #         t += temp[:,:,k,k]
-        else:
-            t = torch.trace(temp)
+        t = torch.einsum('ab,sbd->sad',[t,ketMPS[i]])
+        t = torch.einsum('sac,sad->cd',[braMPS[i].conj(),t])
+    t = t.squeeze()
     #返回的是内积，不是内积的模平方
     return t
 
-- 
2.43.0


From 6c113ea2747ee23f8deac658ca6887ac29ee23ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:53 +0000
Subject: [PATCH 19/23] fix: gradient routines differentiate at and restore the
 gates' current parameters

They read the table filled when the gate was added, so after a parameter
update they returned the gradient at the old point and overwrote the new
parameters; parameters tracking gradients could not be copied at all.
---
 deepquantum/gates/qcircuit.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6dd59ae..9679a2d 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -286,14 +286,15 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            p0 = gate.params #门当前的参数，最后恢复成它
+            p = p0.detach().clone()
             if len(p.shape) == 0:
                 #只有单个参数
                 self.cir.gate[idx].params_update(p + 0.5*torch.pi)
                 e1 = self.cir.cir_expectation(self.init_state, self.M)
                 self.cir.gate[idx].params_update(p - 0.5*torch.pi)
                 e2 = self.cir.cir_expectation(self.init_state, self.M)
-                self.cir.gate[idx].params_update(p) #最后别忘了把参数恢复
+                self.cir.gate[idx].params_update(p0) #最后别忘了把参数恢复
                 grad_lst.append( 0.5*(e1 - e2) )
             
             elif len(p.shape) == 1:
@@ -311,6 +312,7 @@ class parameter_shift(object):
                     self.cir.gate[idx].params_update(p)
                     #最后别忘了把参数恢复
                     grad_lst.append( 0.5*(e1 - e2) )
+                self.cir.gate[idx].params_update(p0)
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
@@ -385,7 +387,8 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            p0 = gate.params #门当前的参数，最后恢复成它
+            p = p0.detach().clone()
             if len(p.shape) == 0:
                 #只有单个参数
                 p = p - torch.pi
@@ -403,8 +406,7 @@ class parameter_shift(object):
                 temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
                 temp = -1.0*temp.real
                 
-                p = p + torch.pi
-                self.cir.gate[idx].params_update(p)
+                self.cir.gate[idx].params_update(p0)
                 
                 grad_lst.append(temp)
                 
@@ -431,6 +433,7 @@ class parameter_shift(object):
                     #最后别忘了把参数恢复
                     
                     grad_lst.append( temp )
+                self.cir.gate[idx].params_update(p0)
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
-- 
2.43.0


From ba42803797376eeecca4a0b327736b9de766277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 20/23] fix: save_mid_MPS works when gate parameters track
 gradients

deepcopy refuses non-leaf tensors that require grad; clone the sites instead.
---
 deepquantum/gates/qcircuit.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 9679a2d..d638572 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -64,7 +64,7 @@ class Circuit(object):
     def TN_evolution(self, MPS:List[torch.Tensor])->List[torch.Tensor]:
         if len(MPS) != self.nqubits:
             raise ValueError('TN_evolution:MPS tensor list must have N elements!')
-        #MPS1 = copy.deepcopy(MPS)
+        #MPS1 = [t.clone() for t in MPS]
         for idx,oper in enumerate(self.gate):
             #print(idx)
             if oper.supportTN == True:
@@ -340,7 +340,7 @@ class parameter_shift(object):
                 MPS = oper.TN_operation(MPS)
                 #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存
                 if idx != num_gates-1 and cir.gate[idx+1].num_params != 0:
-                    save_dict[idx] = copy.deepcopy(MPS)
+                    save_dict[idx] = [t.clone() for t in MPS]
             else:
                 raise ValueError(str(oper.info()['label'])
                                  +'-TN_evolution:some part of circuit do not support Tensor Network')
@@ -351,7 +351,7 @@ class parameter_shift(object):
         MPS = M_oper.TN_operation(MPS)
         #暂时只支持单比特PauliX、PauliY、PauliZ这些简单情况
         if cir.gate[num_gates-1].num_params != 0:
-            save_dict[num_gates-1] = copy.deepcopy(MPS)
+            save_dict[num_gates-1] = [t.clone() for t in MPS]
             
         
         
@@ -362,7 +362,7 @@ class parameter_shift(object):
                 MPS = oper.TN_operation(MPS)
                 #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存
                 if idx != 0 and cir.gate[idx-1].num_params != 0:
-                    save_dict[2*num_gates-idx-1] = copy.deepcopy(MPS)
+                    save_dict[2*num_gates-idx-1] = [t.clone() for t in MPS]
                     
             else:
                 raise ValueError(str(oper.info()['label'])
@@ -395,10 +395,10 @@ class parameter_shift(object):
                 self.cir.gate[idx].params_update(p)
                 
                 if idx == 0:
-                    MPS = copy.deepcopy( init_MPS )
+                    MPS = [t.clone() for t in init_MPS]
                     MPS = gate.TN_operation( MPS )
                 else:
-                    MPS = copy.deepcopy( save_dict[idx-1] )
+                    MPS = [t.clone() for t in save_dict[idx-1]]
                     MPS = gate.TN_operation( MPS )
                 
                 psi1 = MPS2StateVec( MPS )
@@ -418,10 +418,10 @@ class parameter_shift(object):
                     self.cir.gate[idx].params_update(p)
                     #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
                     if idx == 0:
-                        MPS = copy.deepcopy( init_MPS )
+                        MPS = [t.clone() for t in init_MPS]
                         MPS = gate.TN_operation( MPS )
                     else:
-                        MPS = copy.deepcopy( save_dict[idx-1] )
+                        MPS = [t.clone() for t in save_dict[idx-1]]
                         MPS = gate.TN_operation( MPS ) #后面需要-1j修正
                     psi1 = MPS2StateVec( MPS )
                     psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-- 
2.43.0


From c9ceab6c16c8665eb27f38d35eae9898e9f3e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 21/23] fix: parameter-shift gradient of cu3 uses the four-term
 rule

The expectation has frequencies 1/2 and 1 in a cu3 parameter, for which the
two-term rule is not exact.
---
 deepquantum/gates/qcircuit.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index d638572..7391a2e 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -308,10 +308,25 @@ class parameter_shift(object):
                     self.cir.gate[idx].params_update(p)
                     e2 = self.cir.cir_expectation(self.init_state, self.M)
                     
+                    g = 0.5*(e1 - e2)
+                    
+                    if gate.label == 'cu3':
+                        #期望值关于cu3的参数含有1/2和1两种频率，两点公式不精确，需用四点公式
+                        p[i] = p[i] + 2.0*torch.pi
+                        self.cir.gate[idx].params_update(p)
+                        e3 = self.cir.cir_expectation(self.init_state, self.M)
+                        
+                        p[i] = p[i] - 3.0*torch.pi
+                        self.cir.gate[idx].params_update(p)
+                        e4 = self.cir.cir_expectation(self.init_state, self.M)
+                        
+                        p[i] = p[i] + 1.0*torch.pi
+                        g = (2 + 2**0.5)/8*(e1 - e2) - (2 - 2**0.5)/8*(e3 - e4)
+                    
                     p[i] = p[i] + 0.5*torch.pi
                     self.cir.gate[idx].params_update(p)
                     #最后别忘了把参数恢复
-                    grad_lst.append( 0.5*(e1 - e2) )
+                    grad_lst.append( g )
                 self.cir.gate[idx].params_update(p0)
             else:
                 raise ValueError('cal_params_grad: error about params shape')
-- 
2.43.0


From 8b608b6a3c7cd5214f25b64d1f857314ca196558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 22/23] fix: adjoint gradient of u1, cphase and cu3

The single pi-shifted overlap is only valid when the whole gate has half
frequency in the parameter.
---
 deepquantum/gates/qcircuit.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 7391a2e..b67eedb 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -391,6 +391,15 @@ class parameter_shift(object):
                 
     
     
+    def _shifted_overlap(self, idx, params, save_dict, init_MPS):
+        #把第idx个门的参数设为params，返回它作用后的态与反向演化态的内积的实部
+        gate = self.cir.gate[idx]
+        gate.params_update(params)
+        MPS = [t.clone() for t in (init_MPS if idx == 0 else save_dict[idx-1])]
+        psi1 = MPS2StateVec( gate.TN_operation( MPS ) )
+        psi2 = MPS2StateVec( save_dict[2*len(self.cir.gate)-idx-2] )
+        return ( psi2.conj() @ psi1.view(-1,1) ).squeeze().real
+    
     def cal_params_grad2(self,save_dict):
         grad_lst = []
         num_gates = len(self.cir.gate)
@@ -421,6 +430,11 @@ class parameter_shift(object):
                 temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
                 temp = -1.0*temp.real
                 
+                if gate.label in ('u1','cphase'):
+                    #u1、cphase的矩阵元含1和exp(i*theta)，导数是正负pi/2两点之差的一半
+                    temp = self._shifted_overlap(idx, p + 1.5*torch.pi, save_dict, init_MPS) \
+                        - self._shifted_overlap(idx, p + 0.5*torch.pi, save_dict, init_MPS)
+                
                 self.cir.gate[idx].params_update(p0)
                 
                 grad_lst.append(temp)
@@ -444,6 +458,11 @@ class parameter_shift(object):
                     temp = -1.0*temp.real
                     #本来取虚部变成取负实部，相当于修正了-1j
                     p[i] = p[i] + torch.pi
+                    if gate.label == 'cu3':
+                        #控制比特为0的部分与参数无关，用正负pi两点之差消去
+                        p1 = p.clone()
+                        p1[i] = p1[i] + torch.pi
+                        temp = 0.5*(temp + self._shifted_overlap(idx, p1, save_dict, init_MPS))
                     self.cir.gate[idx].params_update(p)
                     #最后别忘了把参数恢复
                     
-- 
2.43.0


From 364907f67cdeea8220052dab6700a1464be0be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:43 +0000
Subject: [PATCH 23/23] fix: adjoint gradient of u1 and cphase given a
 one-element parameter tensor

---
 deepquantum/gates/qcircuit.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index b67eedb..c082466 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -463,6 +463,13 @@ class parameter_shift(object):
                         p1 = p.clone()
                         p1[i] = p1[i] + torch.pi
                         temp = 0.5*(temp + self._shifted_overlap(idx, p1, save_dict, init_MPS))
+                    if gate.label in ('u1','cphase'):
+                        #参数以长度为1的张量给出的u1、cphase，同上，取正负pi/2两点之差的一半
+                        p1, p2 = p.clone(), p.clone()
+                        p1[i] = p1[i] + 0.5*torch.pi
+                        p2[i] = p2[i] - 0.5*torch.pi
+                        temp = self._shifted_overlap(idx, p1, save_dict, init_MPS) \
+                            - self._shifted_overlap(idx, p2, save_dict, init_MPS)
                     self.cir.gate[idx].params_update(p)
                     #最后别忘了把参数恢复
                     
-- 
2.43.0

