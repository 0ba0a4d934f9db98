From 97929e5095638e98bcf0c55ee00962432ee37935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 01/68] fix: C++ samplers read numpy arrays by value instead of
 assuming contiguous doubles

Integer, strided, reversed or byte-swapped parameter arrays (and fixed-spin
arrays) were reinterpreted as raw buffers and silently sampled a different model.
---
 cpp/samplers.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 8787239..5fcdb32 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -264,6 +264,9 @@ void Sampler::readin_fixed_set(std::vector<int> &ix,
                                np::ndarray new_vals) {
     assert (new_ix.shape(0)==new_vals.shape(0));
     int n_subset = new_ix.shape(0);
+    // contiguous copies of ints because data buffers are accessed directly below
+    new_ix = new_ix.astype(np::dtype::get_builtin<int>());
+    new_vals = new_vals.astype(np::dtype::get_builtin<int>());
     int* input_ptr_ix = reinterpret_cast<int*>(new_ix.get_data());
     int* input_ptr_vals = reinterpret_cast<int*>(new_vals.get_data());
 
@@ -306,6 +309,8 @@ Ising::Ising(int n, np::ndarray new_multipliers, int seed)
 void Ising::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n+n*(n-1)/2));
+    // contiguous copy of doubles because data buffer is accessed directly below
+    new_multipliers = new_multipliers.astype(np::dtype::get_builtin<double>());
     double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
@@ -396,6 +401,8 @@ Potts3::Potts3(int n, np::ndarray new_multipliers, int seed)
 void Potts3::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n*3+n*(n-1)/2));
+    // contiguous copy of doubles because data buffer is accessed directly below
+    new_multipliers = new_multipliers.astype(np::dtype::get_builtin<double>());
     double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
-- 
2.43.0


From 1ef27acb0785433917d64e6722155818aa42d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 02/68] fix: BoostIsing.readin_multipliers also updates the
 coupling matrix

Replacing the multipliers left the couplings of the previous model in place, so
later samples mixed new fields with old couplings.
---
 cpp/samplers.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 5fcdb32..e2c7623 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -288,18 +288,9 @@ Ising::Ising(int n, std::vector<double> multipliers, int seed)
 
 Ising::Ising(int n, np::ndarray new_multipliers, int seed)
  : Sampler(n, new_multipliers, seed) {
-     int counter = 0;
-
      // read in numpy array
      readin_multipliers(new_multipliers);
 
-     // setup couplings by copying to a matrix
-     for (int i=0; i<(n-1); ++i) {
-         for (int j=i+1; j<n; ++j) {
-             couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n];
-             counter++;
-         }
-     }
      // check that diagonal is zero
      for (int i=0; i<n; ++i) {
          assert (couplingMat[i][i]==0);
@@ -307,6 +298,7 @@ Ising::Ising(int n, np::ndarray new_multipliers, int seed)
 };
 
 void Ising::readin_multipliers(np::ndarray new_multipliers) {
+    int counter = 0;
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n+n*(n-1)/2));
     // contiguous copy of doubles because data buffer is accessed directly below
@@ -316,6 +308,14 @@ void Ising::readin_multipliers(np::ndarray new_multipliers) {
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
     }
+
+    // setup couplings by copying to a matrix
+    for (int i=0; i<(n-1); ++i) {
+        for (int j=i+1; j<n; ++j) {
+            couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n];
+            counter++;
+        }
+    }
 };
 
 // Initialize samples with random -1, 1 values
-- 
2.43.0


From 84360c0e98ac70c1a937d87daeef6045bfc0f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 03/68] fix: honour burn_in=0 in samplers

burn_in=0 was treated as unset and silently replaced by n_iters.
---
 coniii/samplers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index a8c6258..699a88f 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1214,7 +1214,7 @@ class Metropolis(Sampler):
             Saved array of energies at each sampling step.
         """
         
-        burn_in = burn_in or n_iters
+        if burn_in is None: burn_in = n_iters
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         
         bsampler = BoostIsing(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
@@ -1255,7 +1255,7 @@ class Metropolis(Sampler):
             Saved array of energies at each sampling step.
         """
         
-        burn_in = burn_in or n_iters
+        if burn_in is None: burn_in = n_iters
         if (initial_sample is None and
             (self._samples is None or len(self._samples)!=sample_size)):
             self._samples = self.random_sample(1)
@@ -1346,7 +1346,7 @@ class Metropolis(Sampler):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        if burn_in is None: burn_in = n_iters
 
         # Parallel sample. Each thread needs to return sample_size/n_cpus samples.
         def f(args, n=self.n, multipliers=self.theta):
@@ -1390,7 +1390,7 @@ class Metropolis(Sampler):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        if burn_in is None: burn_in = n_iters
         n_cpus = mp.cpu_count()
         if (initial_sample is None and
             (self._samples is None or len(self._samples)!=n_cpus)):
@@ -1480,7 +1480,7 @@ class Metropolis(Sampler):
             Energy of each sample.
         """
         
-        burn_in = burn_in or n_iters
+        if burn_in is None: burn_in = n_iters
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         fixed_subset_ = list(zip(*fixed_subset))
         assert (np.diff(fixed_subset_[0]) > 0).all()
@@ -1840,7 +1840,7 @@ class Potts3(Metropolis):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        if burn_in is None: burn_in = n_iters
         n_cpus = self.nCpus  # alias
         assert n_cpus>=2, "Sampler is not set up for multiprocessing, nCpus<=1."
         assert sample_size>n_cpus, "Parallelization only helps if many samples are generated per thread."
-- 
2.43.0


From ead17e47b8aa739cef06db21c3907ec2c9db309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 04/68] fix: Potts3.generate_sample uses the Potts model
 instead of the Ising sampler

The sequential Boost route inherited Metropolis.generate_sample_boost, which
builds BoostIsing and returned +/-1 states of an unrelated model.
---
 coniii/samplers.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 699a88f..6d03214 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1816,6 +1816,35 @@ class Potts3(Metropolis):
             self.generate_sample = self.generate_sample_py
             self.generate_sample_parallel = self.generate_sample_parallel_py
 
+    def generate_sample_boost(self,
+                               sample_size,
+                               n_iters=1000,
+                               burn_in=None,
+                               systematic_iter=False):
+        """Generate Metropolis samples using C++ and boost.
+
+        Parameters
+        ----------
+        sample_size : int
+            Number of samples.
+        n_iters : int, 1000
+            Number of Metropolis iterations between samples.
+        burn_in : int, None
+            If not set, will be the same value as n_iters.
+        systematic_iter : bool, False
+            If True, iterate through each element of system by increment index by one. 
+        """
+        
+        if burn_in is None: burn_in = n_iters
+        assert sample_size>0 and n_iters>-1 and burn_in>-1
+        
+        bsampler = BoostPotts3(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
+        bsampler.generate_sample(sample_size,
+                                 burn_in,
+                                 n_iters,
+                                 systematic_iter)
+        self.sample = bsampler.fetch_sample().astype(int)
+
     def generate_sample_parallel_boost(self,
                                         sample_size,
                                         n_iters=1000,
-- 
2.43.0


From 0460586d8bf2d4499f4fb1b63bb0ef1b89ffceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 05/68] fix: sequential sampling after parallel sampling reused
 a set of replicas as one state

generate_sample_py kept self._samples whenever its length equaled the requested
sample size, which raises after generate_sample_parallel left one state per cpu.
---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 6d03214..6cd159a 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1257,7 +1257,7 @@ class Metropolis(Sampler):
         
         if burn_in is None: burn_in = n_iters
         if (initial_sample is None and
-            (self._samples is None or len(self._samples)!=sample_size)):
+            (self._samples is None or len(self._samples)!=1)):
             self._samples = self.random_sample(1)
         elif not initial_sample is None:
             msg = "Initial sample can only be one state for sequential sampling."
-- 
2.43.0


From 43a94894a3f6c55b5ee9b39cc9f7d6602cf78751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 06/68] fix: energy history starts with the initial energy
 instead of ending with a spurious zero

---
 coniii/samplers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 6cd159a..f9473ee 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1280,9 +1280,10 @@ class Metropolis(Sampler):
         
         if saveHistory:
             history = np.zeros(sample_size*n_iters+1)
+            history[0] = E
 
             if systematic_iter:
-                counter = 0
+                counter = 1
                 for i in range(sample_size):
                     for j in range(n_iters):
                         de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
@@ -1292,7 +1293,7 @@ class Metropolis(Sampler):
                     self.sample[i,:] = self._samples[:]
                     self.E[i] = E
             else:
-                counter = 0
+                counter = 1
                 for i in range(sample_size):
                     for j in range(n_iters):
                         de = self.sample_metropolis( self._samples[0], E )
-- 
2.43.0


From 467b079b2561388f6f482041c132f9c12f9c8faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 07/68] fix: systematic iteration continues through all spins
 across samples

The Python samplers restarted at the first spin for every sample, so with n_iters
smaller than the system the remaining spins were never updated.
---
 coniii/samplers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index f9473ee..50bab9f 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1286,7 +1286,7 @@ class Metropolis(Sampler):
                 counter = 1
                 for i in range(sample_size):
                     for j in range(n_iters):
-                        de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
+                        de = self.sample_metropolis( self._samples[0], E, flip_site=(burn_in+i*n_iters+j)%self.n )
                         E += de
                         history[counter] = E
                         counter += 1
@@ -1308,7 +1308,7 @@ class Metropolis(Sampler):
                 counter = 0
                 for i in range(sample_size):
                     for j in range(n_iters):
-                        de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
+                        de = self.sample_metropolis( self._samples[0], E, flip_site=(burn_in+i*n_iters+j)%self.n )
                         E += de
                         counter +=1
                     self.sample[i,:] = self._samples[:]
@@ -1432,7 +1432,7 @@ class Metropolis(Sampler):
 
                 for i in range(nSamples):
                     for j in range(n_iters):
-                        de = self.sample_metropolis( s, E, rng=rng, flip_site=j%self.n )
+                        de = self.sample_metropolis( s, E, rng=rng, flip_site=(burn_in+i*n_iters+j)%self.n )
                         E += de
                     samples[i,:] = s[:]
                 return samples, s, E
@@ -1651,7 +1651,7 @@ class Metropolis(Sampler):
                     counter = 0
                     for i in range(sample_size):
                         for j in range(n_iters):
-                            de = self.sample_metropolis(s, E, rng=self.rng, flip_site=j%nSubset, calc_e=cond_calc_e)
+                            de = self.sample_metropolis(s, E, rng=self.rng, flip_site=(burn_in+i*n_iters+j)%nSubset, calc_e=cond_calc_e)
                             E += de
                             counter += 1
                         self.sample[i,:] = s[:]
-- 
2.43.0


From ffcf124977132fa662307cf0aeeebda8fd4c8391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 08/68] fix: ParallelTempering seeds its replicas from its own
 rng

---
 coniii/samplers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 50bab9f..a5db305 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -682,7 +682,9 @@ class ParallelTempering(Sampler):
 
         self.replicas = []
         for i,b in enumerate(self.beta):
-            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e, boost=False) )
+            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e,
+                                             rng=np.random.RandomState(self.rng.randint(2**31-1)),
+                                             boost=False) )
             # give each replica an index
             self.replicas[i].index = i
         self.burn_in_replicas()
-- 
2.43.0


From 691074523268469d6dfb68ac49a56f6a000e220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 09/68] fix: WolffIsing works with numpy versions without
 np.bool

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index a5db305..dfb5cbc 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -367,7 +367,7 @@ class WolffIsing(Sampler):
         # (1-exp(-2*J))
 
         # Find neighbors but keep only neighbors that have not already been visited.
-        ix = np.zeros((self.n),dtype=np.bool)
+        ix = np.zeros((self.n),dtype=bool)
         ix[alreadyMarked] = True
         ix[site] = True
         neighbors = iterate_neighbors(self.n,ix,self.expdJ[:,site],self.rng.rand(self.n)).tolist()
-- 
2.43.0


From d17d8744ea10521f446e700d9ac78508d199f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 10/68] fix: WolffIsing starts a cluster from site 0 when asked
 to

---
 coniii/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index dfb5cbc..8dafa04 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -322,7 +322,8 @@ class WolffIsing(Sampler):
         self.expdJ = np.exp(-2*state[:,None]*J*state[None,:])
 
         # Choose random site.
-        initialsite = initialsite or self.rng.randint(n)
+        if initialsite is None:
+            initialsite = self.rng.randint(n)
         cluster = self.build_cluster(state,initialsite)
         
         # Flip cluster?
-- 
2.43.0


From fa38eaa2a6b5e14ab391e4c94f7d86b17bbcb87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 11/68] fix: WolffIsing parallel sampling seeds workers from
 its own rng

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 8dafa04..a097df8 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -290,7 +290,7 @@ class WolffIsing(Sampler):
             return s
         
         pool=mp.Pool(mp.cpu_count())
-        sample=np.vstack(pool.map(f,list(zip(sample,np.random.randint(2**31-1,size=samplesize)))))
+        sample=np.vstack(pool.map(f,list(zip(sample,self.rng.randint(2**31-1,size=samplesize)))))
         pool.close()
         return sample
 
-- 
2.43.0


From ec60066d40af9fdfab29fd9654bba92a982d47f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 12/68] fix: WolffIsing does not overwrite the caller's initial
 sample

---
 coniii/samplers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index a097df8..d769d8f 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -252,7 +252,7 @@ class WolffIsing(Sampler):
 
         if initialSample is None:
             sample = self.rng.choice([-1.,1.],size=(samplesize,self.n))
-        else: sample = initialSample
+        else: sample = initialSample.copy()
         
         if save_history:
             history = np.zeros((samplesize,self.n,n_iters+1))
@@ -277,7 +277,7 @@ class WolffIsing(Sampler):
 
         if initialSample is None:
             sample = self.rng.choice([-1.,1.],size=(samplesize,self.n))
-        else: sample = initialSample
+        else: sample = initialSample.copy()
         #if (n_iters%self.n)!=0:
         #    n_iters = (n_iters//self.n+1)*self.n  # hit each spin the same number of times
         #    print "Increased n_iters to %d"%n_iters
-- 
2.43.0


From 2a9fd6027f668d79ace7036527a9c8974780aca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 13/68] fix: Ising reads a 2x2 parameter matrix as a matrix

---
 coniii/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/models.py b/coniii/models.py
index 3109061..f4c4ddd 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -149,7 +149,7 @@ class Ising(Model):
             assert multipliers>1, "System size must be greater than 1."
             self.n = multipliers
             multipliers = np.zeros(self.n+self.n*(self.n-1)//2)
-        if len(multipliers)==2:
+        if len(multipliers)==2 and not (type(multipliers) is np.ndarray and multipliers.shape==(2,2)):
             # case where two vectors are given
             self.n = len(multipliers[0])
             assert self.n*(self.n-1)/2==len(multipliers[1]), "Must be n fields and (n choose 2) couplings."
-- 
2.43.0


From 27193f9e6e0fb86a599cb19b5e4697085feb9ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 14/68] fix: Model.set_rng works before a sampler has been set
 up

---
 coniii/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coniii/models.py b/coniii/models.py
index f4c4ddd..5e0d6ba 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -15,6 +15,9 @@ from .samplers import Potts3 as mcPotts3
 class Model():
     """Basic model class outline.
     """
+
+    sampler = None  # only set once setup_sampler() has been called
+
     def __init__(self, multipliers, rng=None, verbose=False):
         """
         Parameters
@@ -75,7 +78,8 @@ class Model():
         rng : np.random.RandomState
         """
         self.rng = rng
-        self.sampler.rng = rng
+        if not self.sampler is None:
+            self.sampler.rng = rng
 
     def generate_sample(self, n_iters, burn_in,
                         multipliers=None,
-- 
2.43.0


From 74350ce2f554d7d7e0f2ae15da6ff4a3b2568c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 15/68] fix: Model.generate_sample passes generate_kwargs on to
 the sampler

---
 coniii/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coniii/models.py b/coniii/models.py
index 5e0d6ba..d1100af 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -116,7 +116,8 @@ class Model():
                 self.sampler.update_parameters(multipliers)
                 self.sampler.generate_sample(sample_size,
                                              n_iters=n_iters,
-                                             burn_in=burn_in)
+                                             burn_in=burn_in,
+                                             **generate_kwargs)
                 self.sample = self.sampler.sample
             else:
                 raise NotImplementedError("Unrecognized sampler.")
@@ -127,7 +128,8 @@ class Model():
 
                 self.sampler.generate_sample_parallel(sample_size,
                                                       n_iters=n_iters,
-                                                      burn_in=burn_in)
+                                                      burn_in=burn_in,
+                                                      **generate_kwargs)
                 self.sample = self.sampler.sample
             else:
                 raise NotImplementedError("Unrecognized sampler.")
-- 
2.43.0


From 0cda47e13a4efe1d08cca45f69f2ab61acf706cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 16/68] fix: Solver.logp accepts a single state

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index dbd407f..479e385 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -162,7 +162,7 @@ class Solver():
             assert isinstance(sample, np.ndarray)
             assert set(np.unique(sample)) <= frozenset((-1,0,1))
         if sample.ndim==1:
-            sample = s[None,:]
+            sample = sample[None,:]
 
         # only iterate over unique states in sample
         us, uix = np.unique(sample, axis=0, return_inverse=True)
-- 
2.43.0


From 5f02e0e11776badd1ae6ffbe887720e3ab7dfa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 17/68] fix: Solver.set_insertion_ix with a single parameter
 index

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 479e385..662382a 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -120,7 +120,7 @@ class Solver():
         for i, ix in enumerate(self.parameterIx[1:]):
             insertionIx.extend([i+1] * (ix-self.parameterIx[i]-1))
         if self.parameterIx[-1]<(nParams - 1):
-            insertionIx.extend([i+2] * (nParams - self.parameterIx[-1] - 1))
+            insertionIx.extend([len(self.parameterIx)] * (nParams - self.parameterIx[-1] - 1))
 
         #assert np.insert(initial_guess, insertionIx, 0).size==nParams
         self.insertionIx = insertionIx
-- 
2.43.0


From 6a9b22403edaa3a739af4495c22f219a2c20dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 18/68] fix: Enumerate.solve with explicit constraints and no
 sample

---
 coniii/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 662382a..5917dab 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -262,12 +262,12 @@ class Enumerate(Solver):
             Output from scipy.optimize.root.
         """
         
-        if not initial_guess is None:
-            assert initial_guess.size==self.constraints.size
-        else: initial_guess = np.zeros(self.constraints.size)
         if constraints is None:
             constraints = self.constraints
             assert not constraints is None
+        if not initial_guess is None:
+            assert initial_guess.size==constraints.size
+        else: initial_guess = np.zeros(constraints.size)
         
         # default solver routine
         if use_root:
-- 
2.43.0


From 4e08bfb680eec0a43041eff55d3fe6b7c91be5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 19/68] fix: sparse solvers select the constrained correlations
 of the sample

---
 coniii/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 5917dab..e09a092 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -402,8 +402,8 @@ class SparseEnumerate(Solver):
             assert initial_guess.size==self.parameterIx.size
         else: initial_guess = np.zeros(self.parameterIx.size)
         if constraints is None:
-            constraints = self.constraints
-            assert not constraints is None and constraints.size==self.parameterIx.size
+            assert not self.constraints is None
+            constraints = self.constraints[self.parameterIx]
         
         # default solver routine
         if use_root:
@@ -1189,8 +1189,8 @@ class SparseMCH(Solver):
             assert initial_guess.size==self.parameterIx.size
         else: initial_guess = np.zeros(self.parameterIx.size)
         if constraints is None:
-            constraints = self.constraints
-            assert not constraints is None and constraints.size==self.parameterIx.size
+            assert not self.constraints is None
+            constraints = self.constraints[self.parameterIx]
 
 
         # set up for solution
-- 
2.43.0


From 1d44ac69e87b92eeb6cafb2d6997c4f14527a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 20/68] fix: MPF uses the neighbor and derivative functions
 given by the user

---
 coniii/solvers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index e09a092..6682adb 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -491,9 +491,8 @@ class MPF(Solver):
         self.basic_setup(sample, model, calc_observables, iprint, model_kwargs=default_model_kwargs)
         if adj is None:
             from .utils import adj
-            self.adj = adj
-        if calc_de is None:
-            self.calc_de = calc_de  # imported from utils.py
+        self.adj = adj
+        self.calc_de = calc_de
         
     @staticmethod
     def worker_objective_task( s, Xcount, adjacentStates, params, calc_e ):
-- 
2.43.0


From 0cc7939e9abb0d368a60360979ef2995a60f450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 21/68] fix: gradient of the log MPF objective

---
 coniii/solvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 6682adb..1945973 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -615,7 +615,6 @@ class MPF(Solver):
             power -= power.max()
             objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
                           (np.exp(power)*Xcount[:,None]).sum())
-        objGrad -= np.log(Xcount.sum())
         
         if objGrad.size==1:
             raise Exception("")
-- 
2.43.0


From 03b38cc08b204f6746d96fb5149100512c82a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 22/68] fix: MPF restricted to neighbors that are not in the
 data

---
 coniii/solvers.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 1945973..a3b3639 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -597,24 +597,25 @@ class MPF(Solver):
 
         obj = 0.
         objGrad = np.zeros((params.size))
-        power = np.zeros((len(Xuniq), len(adjacentStates[0])))  # energy differences
-        for i,s in enumerate(Xuniq):
-            power[i,:] = .5*( self.model.calc_e(s[None,:], params) -
-                              self.model.calc_e(adjacentStates[i], params) )
+        # energy differences (states may have different numbers of neighbors)
+        power = np.concatenate([.5*( self.model.calc_e(s[None,:], params) -
+                                     self.model.calc_e(adjacentStates[i], params) )
+                                for i,s in enumerate(Xuniq)])
+        Xcount = np.asarray(Xcount)
+        weight = np.repeat(Xcount, [len(a) for a in adjacentStates])
             
-        obj = logsumexp( power + np.log(Xcount)[:,None] -np.log(Xcount.sum()) )
+        obj = logsumexp( power + np.log(weight) - np.log(Xcount.sum()) )
         
         if self.calc_de is None:
             return obj
 
         # coefficients that come out from taking derivative of exp
         for i in range(params.size):
-            gradcoef = np.zeros((len(Xuniq), len(adjacentStates[0])))  
-            for j,s in enumerate(Xuniq): 
-                gradcoef[j,:] = .5 * ( self.calc_de(s[None,:],i) - self.calc_de(adjacentStates[j],i) )
+            gradcoef = np.concatenate([.5 * ( self.calc_de(s[None,:],i) - self.calc_de(adjacentStates[j],i) )
+                                       for j,s in enumerate(Xuniq)])
             power -= power.max()
-            objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
-                          (np.exp(power)*Xcount[:,None]).sum())
+            objGrad[i] = ((gradcoef*np.exp(power)*weight).sum() /
+                          (np.exp(power)*weight).sum())
         
         if objGrad.size==1:
             raise Exception("")
@@ -642,7 +643,7 @@ class MPF(Solver):
                 for i,t in enumerate(adjacentStates[-1]):
                     if np.any(np.all(t[None,:]==Xuniq,1)):
                         ix[i] = False
-                if np.sum(ix)==X.shape[1]:
+                if np.sum(ix)==0:
                     raise Exception("This data set does not satisfy MPF assumption that each \
                                     state be connected to at least one non-data state (?)")
                 adjacentStates[-1] = adjacentStates[-1][ix]
-- 
2.43.0


From 7bc1639443222e407527546f7d3654874338b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 23/68] fix: MCH does no more than the allowed number of
 iterations and learning steps

---
 coniii/solvers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index a3b3639..f13c387 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -927,7 +927,7 @@ class MCH(Solver):
                 if iprint: print("Solved.")
                 errflag = 0
                 keepLooping=False
-            elif counter > maxiter:
+            elif counter >= maxiter:
                 if iprint: print("Over maxiter")
                 errflag = 1
                 keepLooping=False
@@ -1023,7 +1023,7 @@ class MCH(Solver):
             # Evaluate exit criteria.
             if np.linalg.norm(dlamda) > maxdlamdaNorm or np.any(np.abs(dlamda) > maxdlamda):
                 keepLearning = False
-            elif learningSteps > maxLearningSteps:
+            elif learningSteps >= maxLearningSteps:
                 keepLearning = False
 
         self._multipliers += dlamda
@@ -1256,7 +1256,7 @@ class SparseMCH(Solver):
                 if iprint: print("Solved.")
                 errflag = 0
                 keepLooping=False
-            elif counter>maxiter:
+            elif counter>=maxiter:
                 if iprint: print("Over maxiter")
                 errflag = 1
                 keepLooping=False
@@ -1319,7 +1319,7 @@ class SparseMCH(Solver):
             # Evaluate exit criteria.
             if np.linalg.norm(dlamda) > maxdlamdaNorm or np.any(np.abs(dlamda) > maxdlamda):
                 keepLearning = False
-            elif learningSteps > maxLearningSteps:
+            elif learningSteps >= maxLearningSteps:
                 keepLearning = False
 
         self._multipliers += self.fill_in(dlamda)
@@ -1476,7 +1476,7 @@ class MCHIncompleteData(MCH):
                 print("Solved.")
                 errflag=0
                 keepLoop=False
-            elif counter>maxiter:
+            elif counter>=maxiter:
                 print("Over maxiter")
                 errflag=1
                 keepLoop=False
@@ -1559,7 +1559,7 @@ class MCHIncompleteData(MCH):
             # Evaluate exit criteria.
             if np.linalg.norm(dlamda)>maxdlamdaNorm or np.any(np.abs(dlamda)>maxdlamda):
                 keepLearning = False
-            elif learningSteps>maxLearningSteps:
+            elif learningSteps>=maxLearningSteps:
                 keepLearning = False
 
         self._multipliers += dlamda
-- 
2.43.0


From d69fd74bdd09bcf38c0d9e86a010029f7a27464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 24/68] fix: MCH tolerances of zero are not replaced by the
 default

---
 coniii/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index f13c387..bc79624 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -873,8 +873,8 @@ class MCH(Solver):
             self._multipliers = initial_guess.copy()
         else:
             self._multipliers = np.zeros((len(constraints)))
-        tol = tol or 1/np.sqrt(self.model.sampleSize)
-        tolNorm = tolNorm or np.sqrt( 1/self.model.sampleSize )*len(self._multipliers)
+        if tol is None: tol = 1/np.sqrt(self.model.sampleSize)
+        if tolNorm is None: tolNorm = np.sqrt( 1/self.model.sampleSize )*len(self._multipliers)
         
         # Redefine function for automatically adjusting learn_params_kwargs so that it returns the
         # MCH iterator settings and the sample size if it doesn't already.
@@ -1203,8 +1203,8 @@ class SparseMCH(Solver):
             self._multipliers = self.fill_in(initial_guess)
         else:
             self._multipliers = self.fill_in(np.zeros(constraints.size))
-        tol = tol or 1/np.sqrt(self.model.sampleSize)
-        tolNorm = tolNorm or np.sqrt(1/self.model.sampleSize) * len(self._multipliers)
+        if tol is None: tol = 1/np.sqrt(self.model.sampleSize)
+        if tolNorm is None: tolNorm = np.sqrt(1/self.model.sampleSize) * len(self._multipliers)
         
         # Redefine function for automatically adjusting learn_params_kwargs so that it
         # returns the MCH iterator settings and the sample size if it doesn't already.
-- 
2.43.0


From 2db99c6cb881e8bd56f612a3a55b6dea5218e9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 25/68] fix: WolffIsing neighbor search compiles with current
 numba

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index d769d8f..0eb8f78 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -396,7 +396,7 @@ def iterate_neighbors(n,ix,expdJ,r):
     """
 
     counter=0
-    neighbors=np.zeros((n), dtype=int)
+    neighbors=np.zeros((n), dtype=np.int64)
     for i in range(n):
         # Don't include neighbors that are already marked.
         # Check against probability as specified in Wolff's paper for forming link.
-- 
2.43.0


From 920c18c59b2cfa8abd1512e439d9f7cfdd458eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 26/68] fix: digits I and J are in order in bases above 18

---
 coniii/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 1fb5315..070ac38 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -10,7 +10,7 @@ from scipy.spatial.distance import squareform
 from scipy.special import binom
 from warnings import warn
 NUMERALS = '0123456789'
-ALPHNUM = '0123456789ABCDEFGHJIKLMNOPQRSTUVWXYZ'
+ALPHNUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
 
 @njit(cache=True)
@@ -353,7 +353,7 @@ def _small_base(i, base):
   
 @njit
 def _large_base(i, base):
-    ALPHANUM = '0123456789ABCDEFGHJIKLMNOPQRSTUVWXYZ'
+    ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
     rep = []
     exponent = int(np.log(i)/np.log(base))
     term = int(i/base**exponent)
-- 
2.43.0


From c91bb980bbd3b0596063a4b74d5729a7f5b1b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 27/68] fix: Potts equations with more than ten states

---
 coniii/enumerate_potts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/enumerate_potts.py b/coniii/enumerate_potts.py
index a51e035..7bfefa2 100644
--- a/coniii/enumerate_potts.py
+++ b/coniii/enumerate_potts.py
@@ -34,7 +34,7 @@ import numpy as np
 import re
 from datetime import datetime
 from .enumerate import fast_logsumexp
-from .utils import xpotts_states
+from .utils import xpotts_states, ALPHNUM
 from itertools import combinations
 
 
@@ -146,7 +146,7 @@ class PythonFileWriterBase():
             for i in range(self.n):
                 siCoeffs = []
                 for s in allStates:
-                    if s[i]==str(k):
+                    if s[i]==ALPHNUM[k]:
                         siCoeffs.append('1')
                     else:
                         siCoeffs.append('0')
@@ -216,7 +216,7 @@ class SpecificFieldGenericCouplings(PythonFileWriterBase):
             for s in xpotts_states(n, k):
                 term = ''
                 for i in range(n):
-                    term += 'h[%d]+'%(int(s[i])*n+i)
+                    term += 'h[%d]+'%(ALPHNUM.index(s[i])*n+i)
 
                 for counter,(i,j) in enumerate(combinations(range(n),2)):
                     if s[i]==s[j]:
-- 
2.43.0


From 8218a6b6e4b74ee06d3737d9df611fcba21928a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:16 +0000
Subject: [PATCH 28/68] fix: get_nidx finds bin_states

---
 coniii/enumerate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/enumerate.py b/coniii/enumerate.py
index 82e2220..eda34b3 100755
--- a/coniii/enumerate.py
+++ b/coniii/enumerate.py
@@ -396,6 +396,7 @@ def get_nidx(k, n):
     if k==n:
         return np.reshape(list(range(n)),(n,1))
     elif k<n:
+        from .utils import bin_states
         allStates = bin_states(n)
         statesix = np.sum(allStates,1)==k
         ix = []
-- 
2.43.0


From b82c93635621dcfc126e5f02b793fcdd9120b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:02 +0000
Subject: [PATCH 29/68] fix: convert_corr accepts its deprecated keyword
 convertTo

---
 coniii/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 070ac38..7240fec 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -560,7 +560,7 @@ def split_concat_params(p, n):
         i += 1
     return splitp
 
-def convert_corr(si, sisj, convert_to, concat=False, **kwargs):
+def convert_corr(si, sisj, convert_to=None, concat=False, **kwargs):
     """Convert single spin means and pairwise correlations between {0,1} and {-1,1}
     formulations.
 
@@ -588,7 +588,7 @@ def convert_corr(si, sisj, convert_to, concat=False, **kwargs):
     if 'convertTo' in kwargs.keys():
         from warnings import warn
         warn("convertTo kwarg is deprecated as of v1.1.2. Use convert_to instead.")
-        convert_to = convertTo
+        convert_to = kwargs['convertTo']
     elif len(kwargs.keys())>0:
         raise TypeError("Unexpected keyword argument.")
 
-- 
2.43.0


From d85b77e0af8e5a585ac241a43553353cc80f1b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:03 +0000
Subject: [PATCH 30/68] fix: k_corr excludes empty entries when asked to

---
 coniii/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index 7240fec..cd67ce3 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -243,6 +243,7 @@ def k_corr(X, k,
         for counter,ijk in enumerate(combinations(range(N), k)):
             p = np.prod(X[:,ijk], axis=1)
             kcorr[counter] = p[p!=0].mean()
+        return kcorr
     
     if weights is None:
         weights = np.ones(S)/S
-- 
2.43.0


From 0057aeb9d36440af173757c8019b673acbed92a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 31/68] fix: pair_corr and calc_overlap do not overflow small
 integer types

---
 coniii/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index cd67ce3..05ea42c 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -107,7 +107,7 @@ def calc_overlap(sample,ignore_zeros=False):
         Instead of normalizing by the number of spins, normalize by the minimum number of
         nonzero spins.
     """
-    overlap = sample.dot(sample.T)
+    overlap = sample.dot(sample.T.astype(float))
     if ignore_zeros:
         countZeros = np.zeros((len(sample),len(sample),2))
         countZeros[:,:,0] = (sample==0).sum(1)[:,None]
@@ -172,7 +172,7 @@ def pair_corr(X,
     # Calculate pairwise correlations depending on whether or not exclude_empty was set or not.
     if type(weights) is tuple:
         si = X.sum(0) * weights[0]
-        sisj = (X.T.dot(X))[np.triu_indices(X.shape[1],k=1)] * weights[1]
+        sisj = (X.T.dot(X.astype(float)))[np.triu_indices(X.shape[1],k=1)] * weights[1]
     else:
         si = (X*weights[:,None]).sum(0)
         sisj = (X.T.dot(X*weights[:,None]))[np.triu_indices(X.shape[1],k=1)]
-- 
2.43.0


From d85da896a3250b1b726acee943720e29f7823173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 32/68] fix: base_repr uses integer arithmetic (leading zero
 for large numbers)

---
 coniii/utils.py | 48 ++++++++----------------------------------------
 1 file changed, 8 insertions(+), 40 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 05ea42c..f78c2c5 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -331,51 +331,19 @@ def base_repr(i, base):
 @njit
 def _small_base(i, base):
     rep = []
-    exponent = int(np.log(i)/np.log(base))
-    term = int(i/base**exponent)
-    # handle problematically rounded cases
-    if term==base:
-        exponent += 1
-        term = 1
-    rep.append(NUMERALS[term])
-    i -= term*base**exponent
-    
-    exponent -= 1
-    while exponent>=0:
-        baseToExp = base**exponent
-        if baseToExp>i:
-            rep.append('0')
-        else:
-            term = int(i/baseToExp)
-            rep.append(NUMERALS[term])
-            i -= term*baseToExp
-        exponent -= 1
-    return rep
+    while i>0:
+        rep.append(NUMERALS[i%base])
+        i //= base
+    return rep[::-1]
   
 @njit
 def _large_base(i, base):
     ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
     rep = []
-    exponent = int(np.log(i)/np.log(base))
-    term = int(i/base**exponent)
-    # handle problematically rounded cases
-    if term==base:
-        exponent += 1
-        term = 1
-    rep.append(ALPHANUM[term])
-    i -= term*base**exponent
-    
-    exponent -= 1
-    while exponent>=0:
-        baseToExp = base**exponent
-        if baseToExp>i:
-            rep.append('0')
-        else:
-            term = int(i/baseToExp)
-            rep.append(ALPHANUM[term])
-            i -= term*baseToExp
-        exponent -= 1
-    return rep
+    while i>0:
+        rep.append(ALPHANUM[i%base])
+        i //= base
+    return rep[::-1]
 
 def convert_params(h, J, convert_to, concat=False):
     """Convert Ising model fields and couplings from {0,1} basis to {-1,1} and vice versa.
-- 
2.43.0


From 8ce7536647ef0a3b07ff2429f2e36a4f89539dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:21 +0000
Subject: [PATCH 33/68] fix: numba signature of the energy of the Ising model
 without fields

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index f78c2c5..419bc84 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -970,7 +970,7 @@ def define_ising_helper_functions_sym():
         mch_approximation
     """
 
-    @njit("float64[:](int64[:],float64[:,:])", cache=True)
+    @njit("float64[:](float64[:],int64[:,:])", cache=True)
     def fast_sum(J,s):
         """Helper function for calculating energy in calc_e(). Iterates couplings J."""
         e = np.zeros((s.shape[0]))
-- 
2.43.0


From f091abc4d35485318d66cde42968a391009ba591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:38 +0000
Subject: [PATCH 34/68] fix: MPF restricted to non-data neighbors with user's
 neighbor function

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index bc79624..0a737d9 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -639,7 +639,7 @@ class MPF(Solver):
             adjacentStates.append( self.adj(s).astype(int) )
             # Remove states already in data
             if not all_connected:
-                ix = np.zeros((s.size))==0
+                ix = np.ones(len(adjacentStates[-1]), dtype=bool)
                 for i,t in enumerate(adjacentStates[-1]):
                     if np.any(np.all(t[None,:]==Xuniq,1)):
                         ix[i] = False
-- 
2.43.0


From c1f8c597b317ce03098f417e3d514257664347a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 35/68] fix: pseudo log likelihoods use each spin's own row of
 the coupling matrix

---
 coniii/pseudo_inverse_ising.py | 2 +-
 coniii/solvers.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index 42d72bd..aaf7933 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -217,7 +217,7 @@ def pseudoLogLikelihood(samples,J,minSize=0):
                 
     (Could probably be made more efficient.)
     """
-    return scipy.sum([ conditionalLogLikelihood(r,samples,J,minSize) \
+    return scipy.sum([ conditionalLogLikelihood(r,samples,J[r],minSize) \
                        for r in range(len(J)) ])
 
 
diff --git a/coniii/solvers.py b/coniii/solvers.py
index 0a737d9..0258f15 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2128,7 +2128,7 @@ class Pseudo(Solver):
             J should be symmetric
         """
 
-        return np.sum([ cond_log_likelihood(r,X,J) for r in range(len(J)) ])
+        return np.sum([ self.cond_log_likelihood(r,X,J[r]) for r in range(len(J)) ])
 #end Pseudo
 
 
-- 
2.43.0


From 772e9f9ccfb73f23ee4792421db48a4bfcfdd73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:04 +0000
Subject: [PATCH 36/68] fix: ClusterExpansion can find the mean-field reference

---
 coniii/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 0258f15..dc9df73 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2335,7 +2335,7 @@ class ClusterExpansion(Solver):
             deltaJcluster -= J0cluster
         elif meanFieldRef:
             # subtract mean field reference entropy
-            S0cluster,J0cluster = SmeanField(cluster,coocMat,
+            S0cluster,J0cluster = mean_field_ising.SmeanField(cluster,coocMat,
                 meanFieldPriorLmbda,numSamples)
             deltaScluster -= S0cluster
             deltaJcluster -= J0cluster
@@ -2493,7 +2493,7 @@ class ClusterExpansion(Solver):
         if independentRef:
             ent, J0 = self.Sindependent(cluster, coocMat)
         elif meanFieldRef:
-            ent, J0 = SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
+            ent, J0 = mean_field_ising.SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
         else:
             ent = 0.
             J0 = np.zeros((N,N))
-- 
2.43.0


From 5a8b3a1dcbc11d12162e825259a7ce118ac3845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:04 +0000
Subject: [PATCH 37/68] fix: undefined log in the analytic cluster entropies

---
 coniii/solvers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index dc9df73..4960665 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2204,19 +2204,19 @@ class ClusterExpansion(Solver):
             raise Exception
         elif (len(cluster) == 1) and useAnalyticResults:
             p = coocMat[cluster[0],cluster[0]]
-            J = np.array( [ [ -log( p / (1.-p) ) ] ] )
+            J = np.array( [ [ -np.log( p / (1.-p) ) ] ] )
         elif (len(cluster) == 2) and useAnalyticResults:
             i = min(cluster[0],cluster[1])
             j = max(cluster[0],cluster[1])
             pi = coocMat[i,i]
             pj = coocMat[j,j]
             pij = coocMat[i,j]
-            Jii1 = -log( pi / (1.-pi) )
-            Jjj1 = -log( pj / (1.-pj) )
-            Jii = -log( (pi - pij)/(1.-pi-pj+pij) )
-            Jjj = -log( (pj - pij)/(1.-pi-pj+pij) )
-            Jij = - log( pij ) + log( pi - pij ) + log( pj - pij )    \
-                - log( 1.-pi-pj+pij )
+            Jii1 = -np.log( pi / (1.-pi) )
+            Jjj1 = -np.log( pj / (1.-pj) )
+            Jii = -np.log( (pi - pij)/(1.-pi-pj+pij) )
+            Jjj = -np.log( (pj - pij)/(1.-pi-pj+pij) )
+            Jij = - np.log( pij ) + np.log( pi - pij ) + np.log( pj - pij )    \
+                - np.log( 1.-pi-pj+pij )
             J = np.array( [ [ Jii, 0.5*Jij ], [ 0.5*Jij, Jjj ] ] )
         else:
             coocMatCluster = mean_field_ising.coocCluster(coocMat,cluster)
-- 
2.43.0


From c973e0b5dbd9711ce2cce8828dc3f7b6fda20044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:04 +0000
Subject: [PATCH 38/68] fix: ClusterExpansion read correlations of unordered
 clusters from the empty triangle

---
 coniii/solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 4960665..a2c5ca9 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2449,6 +2449,8 @@ class ClusterExpansion(Solver):
 
         # convert input to coocMat
         coocMat = mean_field_ising.cooccurrence_matrix((self.sample+1)/2)
+        # subclusters are not necessarily ordered, so both triangles are needed
+        coocMat = mean_field_ising.symmetrizeUsingUpper(coocMat)
         
         if deltaSdict is None: deltaSdict = {}
         if deltaJdict is None: deltaJdict = {}
-- 
2.43.0


From 2b4460a405aa91e1d50d74055458205e585fed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:04 +0000
Subject: [PATCH 39/68] fix: mean-field couplings when correlation matrix has
 degenerate eigenvalues

---
 coniii/mean_field_ising.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 11e3c4a..8524571 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -187,7 +187,8 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
             gamma = meanFieldPriorLmbda / numSamples
         else:
             gamma = 0.
-        mq,vq = scipy.linalg.eig(M)
+        mq,vq = scipy.linalg.eigh(M) # orthonormal even if degenerate
+        mq = mq.astype(complex)
         mqhat = 0.5*( mq-gamma +                        \
                 scipy.sqrt((mq-gamma)**2 + 4.*gamma) )
         jq = 1./mqhat #1. - 1./mqhat
-- 
2.43.0


From 30b018df45b4368015e9929bb1543d662e761a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:27 +0000
Subject: [PATCH 40/68] fix: mean-field couplings are exactly symmetric

---
 coniii/mean_field_ising.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 8524571..ab8d902 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -207,6 +207,8 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
         logMvals = scipy.log( scipy.linalg.svdvals(M) )
         ent = Sind + 0.5*scipy.sum(logMvals)
     
+    JMF = 0.5*(JMF + JMF.T) # exactly symmetric despite rounding
+    
     # calculate diagonal (h) parameters
     piFactor = scipy.repeat( [(freqs-0.5)/(freqs*(1.-freqs))],
                             N, axis=0).T
-- 
2.43.0


From 8369cce2c0f84f1bafa22888f4b7caa8ab4e0c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:45 +0000
Subject: [PATCH 41/68] fix: coarse graining never pairs a column with itself

---
 coniii/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 419bc84..dbebaed 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1298,8 +1298,10 @@ def coarse_grain_with_func(X, n_times, sim_func, coarse_func):
     # Combine sets of spins with the largest pairwise correlations
     for coarseix in range(n_times):
         n = coarseX.shape[1]
-        cij = squareform(sim_func(coarseX))
+        cij = np.array(squareform(sim_func(coarseX)), dtype=float)
         assert cij.shape==(n,n)
+        # a column must never be paired with itself, even if all similarities are negative
+        np.fill_diagonal(cij, -np.inf)
         ix = list(range(coarseX.shape[1]))
         
         newClusters = []
-- 
2.43.0


From 4d93aeac6421177d2b9d12931ec4b6d6a6cfa103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:16 +0000
Subject: [PATCH 42/68] fix: Ising landscape tools accept lists of fields and
 couplings

---
 coniii/ising/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/ising/utils.py b/coniii/ising/utils.py
index 8bc36c9..77bffdf 100644
--- a/coniii/ising/utils.py
+++ b/coniii/ising/utils.py
@@ -54,12 +54,14 @@ class Ising():
         elif not hasattr(h, '__len__'):
             h = np.zeros(n)+h
         else:
+            h = np.array(h)
             assert len(h)==n, "Number of fields should be equal to n."
         if J is None:
             J = np.zeros(n*(n-1)//2)
         elif not hasattr(J, '__len__'):
             J = np.zeros(n*(n-1)//2)+J
         else:
+            J = np.array(J)
             assert len(J)==(n*(n-1)//2), "Number of couplings should be equal to n choose 2."
         assert h.ndim==1 and J.ndim==1, "Both h and J must be provided as vectors."
         
-- 
2.43.0


From 5a50dac6ee7ac17153aea8b2546f6138c166c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:21 +0000
Subject: [PATCH 43/68] fix: Ising2D accepts fields given as an array

---
 coniii/ising/automaton.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 2f959e1..b94f78d 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -28,10 +28,7 @@ class Ising2D():
         self.dim = dim
         self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
-        if type(h) is float or type(h) is type(int):
-            self.h = np.zeros(dim)+h
-        else:
-            self.h = h or np.zeros(dim)
+        self.h = np.zeros(dim)+h
         self.rng = rng or np.random.RandomState()
 
     def iterate(self, n_iters, systematic=True):
-- 
2.43.0


From 1d4d2f006a88a8727af3adbc91a7b95f031ea5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:21 +0000
Subject: [PATCH 44/68] fix: spins of Ising2D align with the local field

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index b94f78d..83a1d7c 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -99,7 +99,7 @@ class Ising2D():
             dE-=2*J
         
         # Local field.
-        dE-=2*lattice[i,j]*h
+        dE+=2*lattice[i,j]*h
         
         if dE<=0:
             lattice[i,j]*=-1
-- 
2.43.0


From d94b133d552bd6305f8c61e32682bd17a7f11105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 45/68] fix: spins of Ising2D that are their own neighbors do
 not resist flipping

---
 coniii/ising/automaton.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 83a1d7c..607bf9c 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -98,6 +98,12 @@ class Ising2D():
         else:
             dE-=2*J
         
+        # A spin on a side of length one is its own neighbor, which does not cost anything.
+        if dim[0]==1:
+            dE-=4*J
+        if dim[1]==1:
+            dE-=4*J
+
         # Local field.
         dE+=2*lattice[i,j]*h
         
-- 
2.43.0


From 96e4882e61e3c07b7828b50e326b3c130ab9c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 46/68] fix: Ising2D does not repeat the requested number of
 random flips

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 607bf9c..bcac6ae 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -62,7 +62,7 @@ class Ising2D():
         counter = 0
         while counter < n_iters:
             single_iteration(lattice)
-            counter += self.dim[0]*self.dim[1]
+            counter += self.dim[0]*self.dim[1] if systematic else n_iters
         self.lattice = lattice
 
     @staticmethod
-- 
2.43.0


From 66a46c8fa444cbad2edb70e2e42ed66b6faee9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 47/68] fix: Ising2D uses its own random number generator

---
 coniii/ising/automaton.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index bcac6ae..869b20f 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -26,10 +26,10 @@ class Ising2D():
         
         assert len(dim)==2, "Must specify only x and y dimensions."
         self.dim = dim
-        self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
+        self.rng = rng or np.random.RandomState()
+        self.lattice = ((self.rng.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
         self.h = np.zeros(dim)+h
-        self.rng = rng or np.random.RandomState()
 
     def iterate(self, n_iters, systematic=True):
         """
@@ -44,14 +44,16 @@ class Ising2D():
 
         if not systematic:
             @njit
-            def single_iteration(lattice, dim=self.dim, h=self.h, J=self.J):
+            def single_iteration(lattice, seed, dim=self.dim, h=self.h, J=self.J):
+                np.random.seed(seed)
                 for i in range(n_iters):
                     i, j=np.random.randint(dim[0]), np.random.randint(dim[1])
                     flip_metropolis(i, j, h[i,j], J, lattice)
         else:
             # Fast iteration using jit.
             @njit
-            def single_iteration(lattice, dim=self.dim, h=self.h, J=self.J, size=self.dim[0]*self.dim[1]):
+            def single_iteration(lattice, seed, dim=self.dim, h=self.h, J=self.J, size=self.dim[0]*self.dim[1]):
+                np.random.seed(seed)
                 # Randomly order the lattice points for flipping or else lattice will be very important.
                 ix = np.random.permutation( np.arange(dim[0]*dim[1]) )[:size]
                 for ix_ in ix:
@@ -61,7 +63,8 @@ class Ising2D():
         lattice=self.lattice
         counter = 0
         while counter < n_iters:
-            single_iteration(lattice)
+            # numba has its own random number generator
+            single_iteration(lattice, self.rng.randint(2**31-1))
             counter += self.dim[0]*self.dim[1] if systematic else n_iters
         self.lattice = lattice
 
-- 
2.43.0


From e6a8da97d2205cac70aafcbc7447d07c344030bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 48/68] fix: coarse graining of lattices that are not square

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 869b20f..a068f87 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -135,7 +135,7 @@ def coarse_grain(lattice, factor):
 
     for i in range(factor):
         for j in range(factor):
-            reLattice+=lattice[i::factor,j::factor][:reL,:reL]
+            reLattice+=lattice[i::factor,j::factor][:reL,:reLattice.shape[1]]
     reLattice=np.sign(reLattice)
     # when there is a tie, randomly choose a direction
     reLattice[reLattice==0]=np.random.choice([-1,1], size=(reLattice==0).sum())
-- 
2.43.0


From 559616d606c61596b51f21d5d6de55c871b96de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 49/68] fix: random number generator for ties in coarse
 graining of lattices

---
 coniii/ising/automaton.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index a068f87..e400a5a 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -116,7 +116,7 @@ class Ising2D():
             lattice[i,j]*=-1
         return lattice 
 
-def coarse_grain(lattice, factor):
+def coarse_grain(lattice, factor, rng=np.random):
     """Block spin renormalization with majority rule.
     
     Parameters
@@ -124,6 +124,8 @@ def coarse_grain(lattice, factor):
     lattice : ndarray
         +/-1
     factor : int
+    rng : np.random.RandomState, np.random
+        For breaking ties.
     
     Returns
     -------
@@ -138,5 +140,5 @@ def coarse_grain(lattice, factor):
             reLattice+=lattice[i::factor,j::factor][:reL,:reLattice.shape[1]]
     reLattice=np.sign(reLattice)
     # when there is a tie, randomly choose a direction
-    reLattice[reLattice==0]=np.random.choice([-1,1], size=(reLattice==0).sum())
+    reLattice[reLattice==0]=rng.choice([-1,1], size=(reLattice==0).sum())
     return reLattice
-- 
2.43.0


From 5ffebcf7f77ae3dceb6ca88eff83f8400faa1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:33 +0000
Subject: [PATCH 50/68] fix: WolffIsing accepts couplings as a matrix

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 0eb8f78..d3da152 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -228,7 +228,7 @@ class WolffIsing(Sampler):
             Local fields.
         """
 
-        assert len(J)==(len(h)*(len(h)-1)//2)
+        assert len(J)==(len(h)*(len(h)-1)//2) or np.shape(J)==(len(h),len(h))
 
         from scipy.spatial.distance import squareform
 
-- 
2.43.0


From c94e3d7900924510b1b352b950d5e8f7e586392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 51/68] fix: conditional sampling does not overwrite the
 caller's initial sample

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index d3da152..de8d8a4 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1572,7 +1572,7 @@ class Metropolis(Sampler):
         if initial_sample is None:
             self.sample = self.rng.choice([-1,1], size=(sample_size, nSubset))
         else:
-            self.sample = initial_sample
+            self.sample = initial_sample.copy()
         
         # Redefine calc_e to calculate energy and putting back in the fixed spins.
         def cond_calc_e(state, theta):
-- 
2.43.0


From 4a607c9134bfe0357258a7c133b2c87bec046694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 52/68] fix: MPF accepts samples of any numeric type

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index a2c5ca9..02cc135 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -688,7 +688,7 @@ class MPF(Solver):
         
         assert parameter_limits>0
         # Convert from {+/-1} to {0,1} axis.
-        X = (self.sample+1)//2
+        X = ((self.sample+1)//2).astype(int)
 
         if not self.calc_de is None:
             includeGrad = True
-- 
2.43.0


From 5be544073a5deca1be6aa1848ac1f63919eafb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 53/68] fix: sparse solvers accept parameter indices of any
 integer type

---
 coniii/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 02cc135..a4e1fd9 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -341,7 +341,7 @@ class SparseEnumerate(Solver):
         self.basic_setup(sample, model, calc_observables, iprint, model_kwargs=default_model_kwargs) 
 
         assert not parameter_ix is None, "Must specify parameter_ix."
-        assert parameter_ix.dtype==np.int64, "parameter_ix must be array of indices."
+        assert np.issubdtype(parameter_ix.dtype, np.integer), "parameter_ix must be array of indices."
         if np.unique(parameter_ix).size != parameter_ix.size and self.iprint:
             warn("parameter_ix has repeated entries.")
         self.parameterIx = np.unique(parameter_ix)
@@ -1100,7 +1100,7 @@ class SparseMCH(Solver):
         
         # set up members for sparseness constraints
         assert not parameter_ix is None, "Must specify parameter_ix."
-        assert parameter_ix.dtype==np.int64, "parameter_ix must be array of indices."
+        assert np.issubdtype(parameter_ix.dtype, np.integer), "parameter_ix must be array of indices."
         if np.unique(parameter_ix).size != parameter_ix.size and self.iprint:
             warn("parameter_ix has repeated entries.")
         self.parameterIx = np.unique(parameter_ix)
-- 
2.43.0


From 760db196cadec16f0ee8c1b08218c5657c410309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 54/68] fix: Metropolis sampling with integer energies, and
 without changing arrays kept by the energy function

---
 coniii/samplers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index de8d8a4..0eef902 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1267,7 +1267,7 @@ class Metropolis(Sampler):
             assert np.array_equal((1,self.n), initial_sample.shape), msg
             self._samples = initial_sample.astype(int)
 
-        E = self.calc_e( self._samples, self.theta )
+        E = np.array(self.calc_e( self._samples, self.theta ), dtype=float)
         self.sample = np.zeros((sample_size, self.n), dtype=int)
         self.E = np.zeros(sample_size)
         
@@ -1403,7 +1403,7 @@ class Metropolis(Sampler):
             assert np.array_equal((n_cpus,self.n), initial_sample.shape), "initial_sample wrong size"
             self._samples = initial_sample.astype(int)
 
-        E = self.calc_e( self._samples, self.theta )
+        E = np.array(self.calc_e( self._samples, self.theta ), dtype=float)
         self.sample = None  # delete this to speed up pickling for multiprocess
        
         # Parallel sample. Each thread needs to return sample_size/n_cpus samples.
@@ -1591,7 +1591,7 @@ class Metropolis(Sampler):
                 fullstate[0,ii] = state[0,stateix]
                 stateix += 1
             return self.calc_e(fullstate, theta)
-        self.E = np.array([cond_calc_e(s[None,:], self.theta) for s in self.sample])
+        self.E = np.array([cond_calc_e(s[None,:], self.theta) for s in self.sample], dtype=float)
 
         # Parallel sample.
         if parallel:
@@ -1628,7 +1628,7 @@ class Metropolis(Sampler):
             if not systematic_iter:
                 def loop():
                     s = self.rng.choice([-1,1], size=nSubset)
-                    E = cond_calc_e(s[None,:], self.theta)
+                    E = np.array(cond_calc_e(s[None,:], self.theta), dtype=float)
  
                     for j in range(burn_in):
                         de = self.sample_metropolis(s, E, rng=self.rng, calc_e=cond_calc_e)
@@ -1645,7 +1645,7 @@ class Metropolis(Sampler):
             else:
                 def loop():
                     s = self.rng.choice([-1,1], size=nSubset)
-                    E = cond_calc_e(s[None,:], self.theta)
+                    E = np.array(cond_calc_e(s[None,:], self.theta), dtype=float)
  
                     for j in range(burn_in):
                         de = self.sample_metropolis(s, E, rng=self.rng, flip_site=j%nSubset, calc_e=cond_calc_e)
-- 
2.43.0


From 8b60e1d993cc83ec2ed97fa2264b5accb20ffe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 55/68] fix: Solver.fill_in keeps real fill values with integer
 vectors

---
 coniii/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index a4e1fd9..4c002da 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -139,7 +139,8 @@ class Solver():
             With missing entries filled in.
         """
 
-        return np.insert(x, self.insertionIx, fill_value)
+        x = np.asarray(x)
+        return np.insert(x.astype(np.result_type(x, fill_value)), self.insertionIx, fill_value)
 
     def logp(self, sample=None, run_checks=True):
         """Estimate log likelihood of given set of states using self.model.sample.
-- 
2.43.0


From 219487db9cf7a3c0b896534c63ab7baf8322a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 56/68] fix: off-diagonal factor with matrices of integers

---
 coniii/mean_field_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index ab8d902..386af73 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -45,7 +45,7 @@ def aboveDiagFlat(mat, keepDiag=False, offDiagMult=None):
 
     m = copy.copy(mat)
     if offDiagMult is not None:
-        m *= offDiagMult*(1.-scipy.tri(len(m)))+scipy.diag(scipy.ones(len(m))) 
+        m = m * (offDiagMult*(1.-scipy.tri(len(m)))+scipy.diag(scipy.ones(len(m))))
     if keepDiag: begin=0
     else: begin=1
     return scipy.concatenate([ scipy.diagonal(m,i)                          \
-- 
2.43.0


From fa523a6dfe7bab4a8fd1b756d0d76a0dd4cd7de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 57/68] fix: mean-field entropy of unordered clusters of an
 upper-triangular table

---
 coniii/mean_field_ising.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 386af73..2feb052 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -160,9 +160,8 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
                               even when meanFieldPriorLmbda = 0.
     """
     
-    coocMatCluster = coocCluster(coocMat,cluster)
-    # in case we're given an upper-triangular coocMat:
-    coocMatCluster = symmetrizeUsingUpper(coocMatCluster)
+    # in case we're given an upper-triangular coocMat (and an unordered cluster):
+    coocMatCluster = coocCluster(symmetrizeUsingUpper(coocMat),cluster)
     
     outer = scipy.outer
     N = len(cluster)
-- 
2.43.0


From 0c53d148e113686c1183f7deaf7dd54548d40503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 58/68] fix: cooccurrence matrix of small integer types does
 not overflow

---
 coniii/mean_field_ising.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 2feb052..febbb09 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -456,6 +456,7 @@ def cooccurrence_matrix(samples, keep_diag=True):
     ndarray
     """
 
+    samples = np.asarray(samples, dtype=float)  # small integers overflow
     mat = samples.T.dot(samples)
     mat = mat*(1 - np.tri(len(mat), k=keep_diag*-1))  # only modify entries above diagonal
     mat /= len(samples)  # mat /= np.sum(mat)
-- 
2.43.0


From be975b1ce01a696a967c8e4876449c2707148c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 59/68] fix: RegularizedMeanField translates mean-field
 parameters with the right sign and basis

---
 coniii/solvers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 4c002da..aece0a6 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2664,14 +2664,20 @@ class RegularizedMeanField(Solver):
         freqsList = np.diag(coocMatData)
         pmean = np.mean(freqsList)
         
+        def mean_field_multipliers(J):
+            # translate mean-field J (symmetric, negative fields on the diagonal, {0,1}
+            # basis) to fields and couplings in the {-1,1} basis
+            h = -J.diagonal()
+            J = -zero_diag(J)
+            return convert_params( h, squareform(J)*2, '11', concat=True )
+
         # Generate samples from model (need to translate parameters)
         def samples(J):
            self.model.set_rng(get_rng())
            if min_covariance:
                J = tildeJ2normalJ(J, empiricalFreqs)
            burninDefault = 100*self.n
-           J = J + J.T
-           self.model.set_multipliers(np.concatenate([J.diagonal(), squareform(zero_diag(-J))]))
+           self.model.set_multipliers(mean_field_multipliers(J))
            self.model.generate_sample(burninDefault, 1)
            return self.model.sample
 
@@ -2723,12 +2729,9 @@ class RegularizedMeanField(Solver):
         J = mean_field_ising.JmeanField(coocMatData,
                                         meanFieldPriorLmbda=meanFieldPriorLmbdaMin,
                                         numSamples=numDataSamples)
-        J = J + J.T
 
         # convert J to {-1,1} basis
-        h = -J.diagonal()
-        J = -zero_diag(J)
-        self.multipliers = convert_params( h, squareform(J)*2, '11', concat=True )
+        self.multipliers = mean_field_multipliers(J)
 
         return self.multipliers
 
-- 
2.43.0


From ab525c8767c288e2e645cf6ba847ab47b71248ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 60/68] fix: RegularizedMeanField compares model and data in
 the same basis

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index aece0a6..80ede68 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2679,7 +2679,7 @@ class RegularizedMeanField(Solver):
            burninDefault = 100*self.n
            self.model.set_multipliers(mean_field_multipliers(J))
            self.model.generate_sample(burninDefault, 1)
-           return self.model.sample
+           return (self.model.sample+1)/2  # coocMatData is in the {0,1} basis
 
         # adapted from findJMatrixBruteForce_CoocMat
         def func(meanFieldGammaPrime):
-- 
2.43.0


From c2e4e15fb8da2181589edbcecf54052eb845df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 61/68] fix: bracket of a minimum that is attained more than
 once

---
 coniii/solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 80ede68..3808b10 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2749,7 +2749,11 @@ class RegularizedMeanField(Solver):
         if (gridMinIndex == 0) or (gridMinIndex == len(xList)-1):
             raise Exception("Minimum at boundary")
         gridBracket1 = xList[ np.argmin(funcList[:gridMinIndex]) ]
-        gridBracket2 = xList[ gridMinIndex + 1 + np.argmin(funcList[gridMinIndex+1:]) ]
+        # right end must be larger than the minimum, which may have been attained repeatedly
+        right = [f if f>funcList[gridMinIndex] else np.inf for f in funcList[gridMinIndex+1:]]
+        if not np.isfinite(right).any():
+            raise Exception("Minimum at boundary")
+        gridBracket2 = xList[ gridMinIndex + 1 + np.argmin(right) ]
         gridBracket = (gridBracket1,gridMin,gridBracket2)
         return gridBracket
 #end RegularizedMeanField
-- 
2.43.0


From c281caa83115bc0a49dd8941c45f1112b833e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 62/68] fix: regularization search does not leave the range of
 valid strengths

---
 coniii/solvers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 3808b10..9e210b6 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2684,6 +2684,10 @@ class RegularizedMeanField(Solver):
         # adapted from findJMatrixBruteForce_CoocMat
         def func(meanFieldGammaPrime):
             
+            # unbracketed search may try negative values, which do not regularize
+            if meanFieldGammaPrime < 0:
+                return np.inf
+
             # translate gammaPrime prior strength to lambda prior strength
             meanFieldPriorLmbda = meanFieldGammaPrime / (pmean**2 * (1.-pmean)**2)
             
-- 
2.43.0


From 6dac7f49440841b31210c0bc64cd37211cdf34e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 63/68] fix: exchange replicas by their energies, also at
 infinite temperature

Energies were recovered by dividing by the inverse temperature, which is zero for
an infinite highest temperature: the exchange probability became min(1, nan)=1 and
the stored energies nan.
---
 coniii/samplers.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 0eef902..3e1c647 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -742,9 +742,8 @@ class ParallelTempering(Sampler):
                 self.replicas[i+1].index = temp
 
                 # must recalculate energies with new temperature
-                temp = self.replicas[i].E
-                self.replicas[i].E = self.replicas[i+1].E/self.beta[i+1]*self.beta[i]
-                self.replicas[i+1].E = temp/self.beta[i]*self.beta[i+1]
+                for r in (self.replicas[i], self.replicas[i+1]):
+                    r.E = self.calc_e(r.sample, r.theta)
 
     def generate_sample(self,
                          sample_size,
@@ -892,6 +891,12 @@ class ParallelTempering(Sampler):
             pairs = [(i,i+1) for i in range(self.nReplicas-1)]
         acceptanceRatio = np.zeros((len(pairs),n_samples))
 
+        def exchange_prob(i, j):
+            # energies without the factor of beta (which may be zero)
+            dE = (self.calc_e(self.replicas[i].sample, self.theta) -
+                  self.calc_e(self.replicas[j].sample, self.theta))
+            return min(1, np.exp( dE * (self.beta[i]-self.beta[j]) ))
+
         # estimate acceptance probabilities
         if n_iters>0:
             pool = Pool()
@@ -899,15 +904,11 @@ class ParallelTempering(Sampler):
                 self.burn_in_replicas(pool=pool, close_pool=False, n_iters=n_iters)
                 
                 for j,p in enumerate(pairs):
-                    # must divide out self.beta to get energies
-                    dE = self.replicas[p[0]].E/self.beta[p[0]] - self.replicas[p[1]].E/self.beta[p[1]]
-                    acceptanceRatio[j,i] = min(1, np.exp( dE * (self.beta[p[0]]-self.beta[p[1]]) ))
+                    acceptanceRatio[j,i] = exchange_prob(*p)
             pool.close()
         else:
             for j,p in enumerate(pairs):
-                # must divide out self.beta to get energies
-                dE = self.replicas[p[0]].E/self.beta[p[0]] - self.replicas[p[1]].E/self.beta[p[1]]
-                acceptanceRatio[j,0] = min(1, np.exp( dE * (self.beta[p[0]]-self.beta[p[1]]) ))
+                acceptanceRatio[j,0] = exchange_prob(*p)
 
         return acceptanceRatio.mean(1) 
 #end ParallelTempering
-- 
2.43.0


From 5ce3ea63474c5bd4a1585b1763a9a6da6e640b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 64/68] fix: solve from a starting point given in whole numbers

---
 coniii/solvers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 9e210b6..62f4c0d 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -871,6 +871,7 @@ class MCH(Solver):
         # parameters is stored.
         if not (initial_guess is None):
             assert len(initial_guess)==len(constraints)
+            initial_guess = np.asarray(initial_guess, dtype=float)
             self._multipliers = initial_guess.copy()
         else:
             self._multipliers = np.zeros((len(constraints)))
@@ -1201,6 +1202,7 @@ class SparseMCH(Solver):
         # the ones that have been set to 0.
         if not (initial_guess is None):
             assert len(initial_guess)==len(constraints)
+            initial_guess = np.asarray(initial_guess, dtype=float)
             self._multipliers = self.fill_in(initial_guess)
         else:
             self._multipliers = self.fill_in(np.zeros(constraints.size))
@@ -1750,6 +1752,7 @@ class Pseudo(Solver):
 
         if initial_guess is None:
             initial_guess = np.zeros(self.calc_observables(self.sample[0][None,:]).size)
+        initial_guess = np.asarray(initial_guess, dtype=float)
             
         # reformat initial_guess for easy looping later
         initial_guessAsMat = replace_diag(squareform(initial_guess[self.n:]), initial_guess[:self.n])
@@ -1826,6 +1829,7 @@ class Pseudo(Solver):
 
         if initial_guess is None:
             initial_guess = np.zeros(self.calc_observables(self.sample[0][None,:]).size)
+        initial_guess = np.asarray(initial_guess, dtype=float)
         obs = [self.calc_observables_r(r, self.sample) for r in range(self.n)]
         
         def f(params):
@@ -1882,6 +1886,7 @@ class Pseudo(Solver):
 
         if initial_guess is None:
             initial_guess = np.zeros(self.calc_observables(self.sample[0][None,:]).size)
+        initial_guess = np.asarray(initial_guess, dtype=float)
         obs = []
         otherobs = []
         otherobsstate = []
-- 
2.43.0


From 7345f40a55f41dc5ecdb2a42583ca297c0236730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 65/68] fix: multinomial coefficients are exact

---
 coniii/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index dbebaed..5e6b3cf 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -487,7 +487,10 @@ def unravel_index(ijk, n):
 def multinomial(*args):
     from scipy.special import factorial
     assert sum(args[1:])==args[0]
-    return int(np.exp( np.log(factorial(args[0])) - sum([np.log(factorial(a)) for a in args[1:]]) ))
+    coeff = factorial(args[0], exact=True)
+    for a in args[1:]:
+        coeff //= factorial(a, exact=True)
+    return int(coeff)
 
 def _expand_binomial(a, b, n=2):
     """Expand a product of binomials that have the same coefficients given by a and b.
-- 
2.43.0


From 4742f0149a5eeaf0682491b6f66c8ebc995ec9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 66/68] fix: energy with fixed spins reads every fixed value

---
 coniii/samplers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 3e1c647..4fb9dae 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1748,9 +1748,9 @@ def define_jit_cond_calc_e(n, calc_e, fixed_subset):
         i0 = 0
         stateix = 0
         # Fill all spins in between fixed ones.
-        for i in range(0, fixed_subset.size, 2):
-            i = fixed_subset[i]
-            s = fixed_subset[i+1]
+        for j in range(0, fixed_subset.size, 2):
+            i = fixed_subset[j]
+            s = fixed_subset[j+1]
             for ii in range(i0, i):
                 fullstate[0,ii] = state[0,stateix] 
                 stateix += 1
-- 
2.43.0


From 189f37c140d7af7cc777f6972ae90e12b346d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 67/68] fix: rows are unique by value, whatever the sign of
 zero

---
 coniii/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index 5e6b3cf..914d658 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -89,6 +89,7 @@ def unique_rows(mat, return_inverse=False):
         row indices of given mat that will give unique array
     """
 
+    mat = mat + 0  # rows are compared by their bytes, which differ for 0. and -0.
     b = np.ascontiguousarray(mat).view(np.dtype((np.void, mat.dtype.itemsize * mat.shape[1])))
     if not return_inverse:
         _, idx = np.unique(b, return_index=True)
-- 
2.43.0


From 0c0b4e8bec47bac30fa393b530024568c1926124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 68/68] fix: reweighting stays finite for large changes of
 parameters

---
 coniii/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index 914d658..1b517e9 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -938,6 +938,8 @@ def define_ising_helper_functions():
     def mch_approximation(samples, dlamda):
         """Function for making MCH approximation step for Ising model."""
         dE = calc_e(samples, dlamda)
+        # the shift cancels in the normalization and keeps the weights from overflowing
+        dE -= dE.min()
         ZFraction = len(dE) / np.exp(logsumexp(-dE))
         predsisj = pair_corr(samples, weights=np.exp(-dE)/len(dE), concat=True) * ZFraction  
         assert not (np.any(predsisj < -1.00000001) or
@@ -1174,6 +1176,8 @@ def define_potts_helper_functions(k):
         """
 
         dE = calc_e(sample, dlamda)
+        # the shift cancels in the normalization and keeps the weights from overflowing
+        dE -= dE.min()
         ZFraction = len(dE) / np.exp(logsumexp(-dE))
         predsisj = (np.exp(-dE[:,None]) / len(dE) * calc_observables(sample)).sum(0) * ZFraction  
         assert not ((predsisj<0).any() or
-- 
2.43.0

