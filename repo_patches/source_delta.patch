From 0168644a038df4419e15548db5cb137bfe2637a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:22 +0000
Subject: [PATCH 1/8] fix: start a new graph after each
 AssembledConnections::compress()

The recorded maximum row and column indices, and the connection weights
of the previous graph, survived compress().  A subsequent, smaller graph
was therefore rejected or given too many rows, and an unweighted or
empty one kept the weights of its predecessor.
---
 opm/utility/graph/AssembledConnections.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 6747b21..29f511f 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -63,6 +63,9 @@ Opm::AssembledConnections::Connections::clear()
     WeightVector().swap(v_);
     EntityVector().swap(j_);
     EntityVector().swap(i_);
+
+    max_i_ = -1;
+    max_j_ = -1;
 }
 
 bool
@@ -149,6 +152,9 @@ CSR::create(const Connections& conns, const Offset numrows)
     if (conns.isWeighted()) {
         this->accumulateConnWeights(conns.v());
     }
+    else {
+        this->sa_.clear();
+    }
 
     const auto nRows = this->ia().size() - 1;
     if (nRows < numrows) {
-- 
2.43.0


From 05f45144e0d1ab676114cc03f3c4ba8fae96f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:23 +0000
Subject: [PATCH 2/8] fix: restore the stream's format flags after printing a
 graph

setf() only ever adds flags, so the stream was left in scientific
format, and a stream in fixed format printed hexadecimal weights.
---
 opm/utility/graph/AssembledConnections.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 29f511f..9c875a4 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -474,7 +474,8 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 {
     // Set output stream format, store original settings.
     const auto oprec = os.precision(16);
-    const auto oflags = os.setf(std::ios_base::scientific);
+    const auto oflags = os.setf(std::ios_base::scientific,
+                                std::ios_base::floatfield);
 
     // Write connections cell-by-cell.
     const int num_cells = ac.numRows();
@@ -487,7 +488,7 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 
     // Restore original stream settings.
     os.precision(oprec);
-    os.setf(oflags);
+    os.flags(oflags);
 
     return os;
 }
-- 
2.43.0


From 0475d07f61d102d6708e03b5ebda532829b4b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:23 +0000
Subject: [PATCH 3/8] fix: refuse negative cell indices in ConnectivityGraph

Only the upper bound was checked, and negative indices led to accesses
outside the arrays of the diagnostics computation.
---
 opm/flowdiagnostics/ConnectivityGraph.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/opm/flowdiagnostics/ConnectivityGraph.cpp b/opm/flowdiagnostics/ConnectivityGraph.cpp
index 255f23f..d6a3c18 100644
--- a/opm/flowdiagnostics/ConnectivityGraph.cpp
+++ b/opm/flowdiagnostics/ConnectivityGraph.cpp
@@ -44,10 +44,11 @@ ConnectivityGraph::ConnectivityGraph(const int        num_cells,
         throw std::logic_error("Neighbourship must be N-by-2");
     }
 
+    const auto range = std::minmax_element(connCells_.begin(),
+                                           connCells_.end());
+
     if ((! connCells_.empty()) &&
-        (*std::max_element(connCells_.begin(),
-                           connCells_.end())
-         >= num_cells))
+        ((*range.first < 0) || (*range.second >= num_cells)))
     {
         throw std::logic_error("Cell indices must be in range");
     }
-- 
2.43.0


From 34c196f8299a4240b9a285839d38d489a9a3d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:25 +0000
Subject: [PATCH 4/8] fix: ignore connections joining a cell to itself

Such a connection carries no flow between cells, but its flux entered
the cell's total inflow and thereby diluted tracers.
---
 opm/flowdiagnostics/Toolbox.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 8cc2745..0f11b96 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -221,6 +221,10 @@ Toolbox::Impl::buildAssembledConnections()
     upstream_conn_ = AssembledConnections();
     for (size_t conn_idx = 0; conn_idx < num_connections; ++conn_idx) {
         auto cells = g_.connection(conn_idx);
+        if (cells.first == cells.second) {
+            // No flow between cells.
+            continue;
+        }
         using ConnID = ConnectionValues::ConnID;
         using PhaseID = ConnectionValues::PhaseID;
         // Adding up all phase fluxes. TODO: ensure rigor, allow phase-based calculations.
-- 
2.43.0


From 496ab4854f8c221d8a1b27390d36b45dbf28c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:27 +0000
Subject: [PATCH 5/8] fix: accept models without connections

An empty flux table was taken for a missing one, so diagnostics could
not be computed at all when there are no connections between cells.
---
 opm/flowdiagnostics/Toolbox.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 0f11b96..368c80c 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -66,6 +66,7 @@ private:
 
     std::vector<double> pvol_;
     ConnectionValues    flux_;
+    bool                flux_assigned_ = false;
     std::map<CellSetID, CellSetValues> inj_flux_by_id_;
     std::map<CellSetID, CellSetValues> prod_flux_by_id_;
     CellSetValues       only_inflow_flux_;
@@ -107,6 +108,7 @@ Toolbox::Impl::assignConnectionFlux(const ConnectionValues& flux)
     }
 
     flux_ = flux;
+    flux_assigned_ = true;
     conn_built_ = false;
 }
 
@@ -135,7 +137,7 @@ Toolbox::Forward
 Toolbox::Impl::injDiag(const std::vector<CellSet>& start_sets)
 {
     // Check that we have specified pore volume and fluxes.
-    if (pvol_.empty() || flux_.numConnections() == 0) {
+    if (pvol_.empty() || !flux_assigned_) {
         throw std::logic_error("Must set pore volumes and fluxes before calling diagnostics.");
     }
 
@@ -175,7 +177,7 @@ Toolbox::Reverse
 Toolbox::Impl::prodDiag(const std::vector<CellSet>& start_sets)
 {
     // Check that we have specified pore volume and fluxes.
-    if (pvol_.empty() || flux_.numConnections() == 0) {
+    if (pvol_.empty() || !flux_assigned_) {
         throw std::logic_error("Must set pore volumes and fluxes before calling diagnostics.");
     }
 
-- 
2.43.0


From 04aca80208bd74e31cbfd4d270da454ae5a1781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:29 +0000
Subject: [PATCH 6/8] fix: refuse inflow fluxes in cells outside the model

The solver expands inflow fluxes to an array of all cells, and wrote
outside of that array.
---
 opm/flowdiagnostics/Toolbox.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 368c80c..4208d28 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -115,6 +115,17 @@ Toolbox::Impl::assignConnectionFlux(const ConnectionValues& flux)
 void
 Toolbox::Impl::assignInflowFlux(const std::map<CellSetID, CellSetValues>& inflow_flux)
 {
+    for (const auto& inflow_set : inflow_flux) {
+        for (const auto& data : inflow_set.second) {
+            if ((data.first < 0) ||
+                (static_cast<size_t>(data.first) >= g_.numCells()))
+            {
+                throw std::logic_error("Inflow flux given for cell "
+                                       "outside model");
+            }
+        }
+    }
+
     only_inflow_flux_.clear();
     only_outflow_flux_.clear();
     inj_flux_by_id_.clear();
-- 
2.43.0


From fa1f47d235c194be6fa73ed124dca624777030d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:30 +0000
Subject: [PATCH 7/8] fix: report failure to allocate memory for the
 topological ordering

Null results of the Tarjan routines were dereferenced.
---
 opm/flowdiagnostics/TracerTofSolver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opm/flowdiagnostics/TracerTofSolver.cpp b/opm/flowdiagnostics/TracerTofSolver.cpp
index e787d7f..0f38c6a 100644
--- a/opm/flowdiagnostics/TracerTofSolver.cpp
+++ b/opm/flowdiagnostics/TracerTofSolver.cpp
@@ -213,6 +213,9 @@ namespace FlowDiagnostics
         struct Deleter { void operator()(TarjanSCCResult* x) { destroy_tarjan_sccresult(x); } };
         std::unique_ptr<TarjanSCCResult, Deleter>
             result(tarjan(num_cells, g_.startPointers().data(), g_.neighbourhood().data()));
+        if (!result) {
+            throw std::runtime_error("Failed to compute topological ordering in TracerTofSolver::computeOrdering()");
+        }
 
         // Must reverse ordering, since Tarjan computes reverse ordering.
         const int ok = tarjan_reverse_sccresult(result.get());
@@ -254,9 +257,15 @@ namespace FlowDiagnostics
         {
             struct WorkspaceDeleter { void operator()(TarjanWorkSpace* x) { destroy_tarjan_workspace(x); } };
             std::unique_ptr<TarjanWorkSpace, WorkspaceDeleter> ws(create_tarjan_workspace(num_cells));
+            if (!ws) {
+                throw std::runtime_error("Failed to allocate workspace in TracerTofSolver::computeLocalOrdering()");
+            }
             result.reset(tarjan_reachable_sccs(num_cells, g_.startPointers().data(), g_.neighbourhood().data(),
                                                startcells.size(), startcells.data(), ws.get()));
         }
+        if (!result) {
+            throw std::runtime_error("Failed to compute topological ordering in TracerTofSolver::computeLocalOrdering()");
+        }
 
         // Must reverse ordering, since Tarjan computes reverse ordering.
         const int ok = tarjan_reverse_sccresult(result.get());
-- 
2.43.0


From 8dc8519d2f7c3fe5ea270e9ac118f0fa383f0067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:01 +0000
Subject: [PATCH 8/8] fix: accept models without cells

Whether pore volumes were assigned was inferred from the field not being
empty, so a model without cells was refused although everything had been
assigned.
---
 opm/flowdiagnostics/Toolbox.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 4208d28..e5657ee 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -65,6 +65,7 @@ private:
     ConnectivityGraph g_;
 
     std::vector<double> pvol_;
+    bool                pvol_assigned_ = false;
     ConnectionValues    flux_;
     bool                flux_assigned_ = false;
     std::map<CellSetID, CellSetValues> inj_flux_by_id_;
@@ -97,6 +98,7 @@ Toolbox::Impl::assignPoreVolume(const std::vector<double>& pvol)
     }
 
     pvol_ = pvol;
+    pvol_assigned_ = true;
 }
 
 void
@@ -148,7 +150,7 @@ Toolbox::Forward
 Toolbox::Impl::injDiag(const std::vector<CellSet>& start_sets)
 {
     // Check that we have specified pore volume and fluxes.
-    if (pvol_.empty() || !flux_assigned_) {
+    if (!pvol_assigned_ || !flux_assigned_) {
         throw std::logic_error("Must set pore volumes and fluxes before calling diagnostics.");
     }
 
@@ -188,7 +190,7 @@ Toolbox::Reverse
 Toolbox::Impl::prodDiag(const std::vector<CellSet>& start_sets)
 {
     // Check that we have specified pore volume and fluxes.
-    if (pvol_.empty() || !flux_assigned_) {
+    if (!pvol_assigned_ || !flux_assigned_) {
         throw std::logic_error("Must set pore volumes and fluxes before calling diagnostics.");
     }
 
-- 
2.43.0

