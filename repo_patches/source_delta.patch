From e3332a27f224b3ba04cf3202a380cd198a7387f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 01/54] fix: block engine reads and writes out of bounds when
 the body count is no multiple of the block size

---
 nbody/nbody_engine_block.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nbody/nbody_engine_block.cpp b/nbody/nbody_engine_block.cpp
index 8c12813..b1c29fe 100644
--- a/nbody/nbody_engine_block.cpp
+++ b/nbody/nbody_engine_block.cpp
@@ -1,5 +1,6 @@
 #include "nbody_engine_block.h"
 #include <omp.h>
+#include <algorithm>
 #include <QDebug>
 
 nbody_engine_block::nbody_engine_block()
@@ -51,6 +52,7 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 	#pragma omp parallel for
 	for(size_t n1 = 0; n1 < count; n1 += block)
 	{
+		const size_t		block1 = std::min(block, count - n1);
 		nbcoord_t			x1[block];
 		nbcoord_t			y1[block];
 		nbcoord_t			z1[block];
@@ -58,7 +60,7 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 		nbcoord_t			total_force_y[block];
 		nbcoord_t			total_force_z[block];
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != block1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 
@@ -71,12 +73,13 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 		}
 		for(size_t n2 = 0; n2 < count; n2 += block)
 		{
+			const size_t		block2 = std::min(block, count - n2);
 			nbcoord_t			x2[block];
 			nbcoord_t			y2[block];
 			nbcoord_t			z2[block];
 			nbcoord_t			m2[block];
 
-			for(size_t b2 = 0; b2 != block; ++b2)
+			for(size_t b2 = 0; b2 != block2; ++b2)
 			{
 				size_t local_n2 = b2 + n2;
 
@@ -86,9 +89,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 				m2[b2] = mass[n2 + b2];
 			}
 
-			for(size_t b1 = 0; b1 != block; ++b1)
+			for(size_t b1 = 0; b1 != block1; ++b1)
 			{
-				for(size_t b2 = 0; b2 != block; ++b2)
+				for(size_t b2 = 0; b2 != block2; ++b2)
 				{
 					nbcoord_t		dx = x1[b1] - x2[b2];
 					nbcoord_t		dy = y1[b1] - y2[b2];
@@ -112,7 +115,7 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 			}
 		}
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != block1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 			frx[local_n1] = vx[local_n1];
-- 
2.43.0


From fb07304b32b69fa48874e07853d05c9edd97c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:40 +0000
Subject: [PATCH 02/54] fix: heap tree refresh skips nodes and uses stale
 children when the body count is no power of two

---
 nbody/nbody_space_heap.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_space_heap.cpp b/nbody/nbody_space_heap.cpp
index 84fa297..154a542 100644
--- a/nbody/nbody_space_heap.cpp
+++ b/nbody/nbody_space_heap.cpp
@@ -49,10 +49,16 @@ void nbody_space_heap::rebuild(size_t count, const nbcoord_t* rx, const nbcoord_
 		m_box_min[idx] = m_mass_center[idx];
 		m_box_max[idx] = m_mass_center[idx];
 	}
-	for(size_t level_count = count; level_count > 0; level_count /= 2)
+	size_t	level_begin = NBODY_HEAP_ROOT_INDEX;
+	while(left_idx(level_begin) < count)
+	{
+		level_begin = left_idx(level_begin);
+	}
+	// Inner nodes are [NBODY_HEAP_ROOT_INDEX, count), update them level by level from bottom to root
+	for(size_t level_end = count; level_begin > 0; level_end = level_begin, level_begin = parent_idx(level_begin))
 	{
 		#pragma omp parallel for
-		for(size_t idx = level_count / 2; idx < level_count; ++idx)
+		for(size_t idx = level_begin; idx < level_end; ++idx)
 		{
 			size_t	left(left_idx(idx));
 			size_t	rght(rght_idx(idx));
-- 
2.43.0


From bacc11b690fce517f3db6e0f93da92633be101e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:40 +0000
Subject: [PATCH 03/54] fix: heap tree build writes out of bounds and loses
 bodies when the body count is no power of two

---
 nbody/nbody_space_heap.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_space_heap.cpp b/nbody/nbody_space_heap.cpp
index 154a542..66db630 100644
--- a/nbody/nbody_space_heap.cpp
+++ b/nbody/nbody_space_heap.cpp
@@ -139,6 +139,17 @@ void nbody_space_heap::update(size_t idx, size_t left, size_t rght)
 	m_radius_sqr[idx] = (r * r) * m_distance_to_node_radius_ratio_sqr;
 }
 
+//! Leaves count in the left subtree of a complete binary tree, equal to count / 2 when count is a power of two
+static size_t left_subtree_size(size_t count)
+{
+	size_t	half = 1;
+	while(half * 4 <= count)
+	{
+		half *= 2;
+	}
+	return half + std::min(half, count - 2 * half);
+}
+
 void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* rx, const nbcoord_t* ry,
 							   const nbcoord_t* rz, const nbcoord_t* mass, size_t idx, size_t dimension)
 {
@@ -152,7 +163,7 @@ void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* r
 		return;
 	}
 
-	size_t	left_size = count / 2;
+	size_t	left_size = left_subtree_size(count);
 	size_t	right_size = count - left_size;
 	size_t*	median = indites + left_size;
 	auto comparator_x = [rx](size_t a, size_t b) { return rx[a] < rx[b];};
-- 
2.43.0


From 3fb50e2a43a23f5f48828597de0ab0a52731059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:40 +0000
Subject: [PATCH 04/54] fix: nested tree traversal treats an inner node of zero
 radius (coincident bodies, zero ratio) as a body

---
 nbody/nbody_space_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_space_tree.h b/nbody/nbody_space_tree.h
index 6eb6378..66e38bb 100644
--- a/nbody/nbody_space_tree.h
+++ b/nbody/nbody_space_tree.h
@@ -59,7 +59,7 @@ public:
 		while(stack != stack_head)
 		{
 			node*				curr = *--stack;
-			if(curr->m_radius_sqr > 0)
+			if(curr->m_body_n == TREE_NO_BODY)
 			{
 				if(curr->m_left != NULL)
 				{
-- 
2.43.0


From 1247a83ecb678283f1081fb7b7a9a5b3d42c31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:17 +0000
Subject: [PATCH 05/54] fix: fmaddn leaves its result unset when all
 coefficients are zero

---
 nbody/nbody_engine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbody/nbody_engine.cpp b/nbody/nbody_engine.cpp
index d13ff1d..d40fdc9 100644
--- a/nbody/nbody_engine.cpp
+++ b/nbody/nbody_engine.cpp
@@ -110,6 +110,10 @@ void nbody_engine::fmaddn(memory* a, const memory* b, const memory_array& c,
 		}
 		a_initiated = true;
 	}
+	if(!a_initiated)
+	{
+		copy_buffer(a, b);
+	}
 }
 
 void nbody_engine::print_info() const
-- 
2.43.0


From 7d71978b4bff5512635d08a36bd6276061980873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:00 +0000
Subject: [PATCH 06/54] fix: neighbour-list engine reads empty lists when its
 first evaluation is not at a full-recompute step

---
 nbody/nbody_engine_ah.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_engine_ah.cpp b/nbody/nbody_engine_ah.cpp
index e915076..630f907 100644
--- a/nbody/nbody_engine_ah.cpp
+++ b/nbody/nbody_engine_ah.cpp
@@ -30,7 +30,8 @@ void nbody_engine_ah::fcompute(const nbcoord_t& t, const memory* _y, memory* _f)
 		return;
 	}
 
-	if(m_data->get_step() % m_full_recompute_rate == 0)
+	if(m_univerce_force.size() != m_data->get_count() ||
+	   m_data->get_step() % m_full_recompute_rate == 0)
 	{
 		fcompute_full(y, f);
 	}
-- 
2.43.0


From a25930ad59f8656599bbc6cc1a1e3a86f1dfdb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:00 +0000
Subject: [PATCH 07/54] fix: neighbour-list engine divides by zero when
 full_recompute_rate is 0

---
 nbody/nbody_engine_ah.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_engine_ah.cpp b/nbody/nbody_engine_ah.cpp
index 630f907..6cf43f4 100644
--- a/nbody/nbody_engine_ah.cpp
+++ b/nbody/nbody_engine_ah.cpp
@@ -30,7 +30,8 @@ void nbody_engine_ah::fcompute(const nbcoord_t& t, const memory* _y, memory* _f)
 		return;
 	}
 
-	if(m_univerce_force.size() != m_data->get_count() ||
+	if(m_full_recompute_rate == 0 ||
+	   m_univerce_force.size() != m_data->get_count() ||
 	   m_data->get_step() % m_full_recompute_rate == 0)
 	{
 		fcompute_full(y, f);
-- 
2.43.0


From 30d6bad89ed436a2746cce39c13d8648b7bca921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:26 +0000
Subject: [PATCH 08/54] fix: CPU copy_buffer copies the problem size whatever
 the buffers hold

---
 nbody/nbody_engine_openmp.cpp | 7 ++++++-
 nbody/nbody_engine_simple.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_engine_openmp.cpp b/nbody/nbody_engine_openmp.cpp
index 64bf366..8962ddf 100644
--- a/nbody/nbody_engine_openmp.cpp
+++ b/nbody/nbody_engine_openmp.cpp
@@ -119,10 +119,15 @@ void nbody_engine_openmp::copy_buffer(nbody_engine::memory* __a, const nbody_eng
 		qDebug() << "b is not smemory";
 		return;
 	}
+	if(_a->size() != _b->size())
+	{
+		qDebug() << "Size does not match";
+		return;
+	}
 
 	nbcoord_t*			a = reinterpret_cast<nbcoord_t*>(_a->data());
 	const nbcoord_t*	b = reinterpret_cast<const nbcoord_t*>(_b->data());
-	size_t				count = problem_size();
+	size_t				count = _a->size() / sizeof(nbcoord_t);
 
 	#pragma omp parallel for
 	for(size_t i = 0; i < count; ++i)
diff --git a/nbody/nbody_engine_simple.cpp b/nbody/nbody_engine_simple.cpp
index 6ef25f8..d0cb82b 100644
--- a/nbody/nbody_engine_simple.cpp
+++ b/nbody/nbody_engine_simple.cpp
@@ -249,10 +249,15 @@ void nbody_engine_simple::copy_buffer(nbody_engine::memory* __a, const nbody_eng
 		qDebug() << "b is not smemory";
 		return;
 	}
+	if(_a->size() != _b->size())
+	{
+		qDebug() << "Size does not match";
+		return;
+	}
 
 	nbcoord_t*			a = reinterpret_cast<nbcoord_t*>(_a->data());
 	const nbcoord_t*	b = reinterpret_cast<const nbcoord_t*>(_b->data());
-	size_t				count = problem_size();
+	size_t				count = _a->size() / sizeof(nbcoord_t);
 
 	for(size_t i = 0; i < count; ++i)
 	{
-- 
2.43.0


From 830c4f3e27b9f97c3c1e381059d4978763e61f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:27 +0000
Subject: [PATCH 09/54] fix: destroying a solver that never got an engine
 dereferences a null pointer

---
 nbody/nbody_solver_adams.cpp            |  7 +++++--
 nbody/nbody_solver_bulirsch_stoer.cpp   |  5 ++++-
 nbody/nbody_solver_euler.cpp            |  5 ++++-
 nbody/nbody_solver_midpoint.cpp         |  9 ++++++---
 nbody/nbody_solver_midpoint_stetter.cpp | 11 +++++++----
 nbody/nbody_solver_rk4.cpp              |  7 +++++--
 nbody/nbody_solver_rk_butcher.cpp       | 15 +++++++++------
 nbody/nbody_solver_trapeze.cpp          |  7 +++++--
 8 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index ac4a124..64d215e 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -18,8 +18,11 @@ nbody_solver_adams::nbody_solver_adams(nbody_solver* starter,
 nbody_solver_adams::~nbody_solver_adams()
 {
 	delete m_starter;
-	engine()->free_buffers(m_f);
-	engine()->free_buffer(m_corr_data);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_f);
+		engine()->free_buffer(m_corr_data);
+	}
 }
 
 const char* nbody_solver_adams::type_name() const
diff --git a/nbody/nbody_solver_bulirsch_stoer.cpp b/nbody/nbody_solver_bulirsch_stoer.cpp
index f6c2468..a457f44 100644
--- a/nbody/nbody_solver_bulirsch_stoer.cpp
+++ b/nbody/nbody_solver_bulirsch_stoer.cpp
@@ -52,7 +52,10 @@ nbody_solver_bulirsch_stoer::nbody_solver_bulirsch_stoer(
 
 nbody_solver_bulirsch_stoer::~nbody_solver_bulirsch_stoer()
 {
-	engine()->free_buffer(m_y0);
+	if(engine() != NULL)
+	{
+		engine()->free_buffer(m_y0);
+	}
 	delete m_extrapolator;
 	delete m_internal;
 }
diff --git a/nbody/nbody_solver_euler.cpp b/nbody/nbody_solver_euler.cpp
index 4b684f9..4a9c1be 100644
--- a/nbody/nbody_solver_euler.cpp
+++ b/nbody/nbody_solver_euler.cpp
@@ -8,7 +8,10 @@ nbody_solver_euler::nbody_solver_euler() : nbody_solver()
 
 nbody_solver_euler::~nbody_solver_euler()
 {
-	engine()->free_buffer(m_dy);
+	if(engine() != NULL)
+	{
+		engine()->free_buffer(m_dy);
+	}
 }
 
 const char* nbody_solver_euler::type_name() const
diff --git a/nbody/nbody_solver_midpoint.cpp b/nbody/nbody_solver_midpoint.cpp
index f1d53f3..16e251e 100644
--- a/nbody/nbody_solver_midpoint.cpp
+++ b/nbody/nbody_solver_midpoint.cpp
@@ -9,9 +9,12 @@ nbody_solver_midpoint::nbody_solver_midpoint():
 
 nbody_solver_midpoint::~nbody_solver_midpoint()
 {
-	engine()->free_buffer(m_k1);
-	engine()->free_buffer(m_k2);
-	engine()->free_buffer(m_tmp);
+	if(engine() != NULL)
+	{
+		engine()->free_buffer(m_k1);
+		engine()->free_buffer(m_k2);
+		engine()->free_buffer(m_tmp);
+	}
 }
 
 const char* nbody_solver_midpoint::type_name() const
diff --git a/nbody/nbody_solver_midpoint_stetter.cpp b/nbody/nbody_solver_midpoint_stetter.cpp
index 62f136d..e31fd1d 100644
--- a/nbody/nbody_solver_midpoint_stetter.cpp
+++ b/nbody/nbody_solver_midpoint_stetter.cpp
@@ -9,10 +9,13 @@ nbody_solver_midpoint_stetter::nbody_solver_midpoint_stetter() :
 
 nbody_solver_midpoint_stetter::~nbody_solver_midpoint_stetter()
 {
-	engine()->free_buffers(m_fu);
-	engine()->free_buffers(m_uv);
-	engine()->free_buffer(m_tmp);
-	engine()->free_buffer(m_du);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_fu);
+		engine()->free_buffers(m_uv);
+		engine()->free_buffer(m_tmp);
+		engine()->free_buffer(m_du);
+	}
 }
 
 const char* nbody_solver_midpoint_stetter::type_name() const
diff --git a/nbody/nbody_solver_rk4.cpp b/nbody/nbody_solver_rk4.cpp
index 62a9c7c..fc6568d 100644
--- a/nbody/nbody_solver_rk4.cpp
+++ b/nbody/nbody_solver_rk4.cpp
@@ -7,8 +7,11 @@ nbody_solver_rk4::nbody_solver_rk4() : nbody_solver()
 
 nbody_solver_rk4::~nbody_solver_rk4()
 {
-	engine()->free_buffers(m_k);
-	engine()->free_buffer(m_tmp);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_k);
+		engine()->free_buffer(m_tmp);
+	}
 }
 
 const char* nbody_solver_rk4::type_name() const
diff --git a/nbody/nbody_solver_rk_butcher.cpp b/nbody/nbody_solver_rk_butcher.cpp
index 5de7444..51964a3 100644
--- a/nbody/nbody_solver_rk_butcher.cpp
+++ b/nbody/nbody_solver_rk_butcher.cpp
@@ -19,12 +19,15 @@ nbody_solver_rk_butcher::nbody_solver_rk_butcher(nbody_butcher_table* t) :
 nbody_solver_rk_butcher::~nbody_solver_rk_butcher()
 {
 	delete m_bt;
-	engine()->free_buffers(m_k);;
-	engine()->free_buffer(m_t);
-	engine()->free_buffer(m_tmpk);
-	engine()->free_buffer(m_ycorr_data);
-	engine()->free_buffer(m_tcorr_data);
-	engine()->free_buffers(m_y_stack);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_k);;
+		engine()->free_buffer(m_t);
+		engine()->free_buffer(m_tmpk);
+		engine()->free_buffer(m_ycorr_data);
+		engine()->free_buffer(m_tcorr_data);
+		engine()->free_buffers(m_y_stack);
+	}
 }
 
 const char* nbody_solver_rk_butcher::type_name() const
diff --git a/nbody/nbody_solver_trapeze.cpp b/nbody/nbody_solver_trapeze.cpp
index a91f95d..a98334c 100644
--- a/nbody/nbody_solver_trapeze.cpp
+++ b/nbody/nbody_solver_trapeze.cpp
@@ -9,8 +9,11 @@ nbody_solver_trapeze::nbody_solver_trapeze() : nbody_solver()
 
 nbody_solver_trapeze::~nbody_solver_trapeze()
 {
-	engine()->free_buffers(m_f);
-	engine()->free_buffer(m_predictor);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_f);
+		engine()->free_buffer(m_predictor);
+	}
 }
 
 const char* nbody_solver_trapeze::type_name() const
-- 
2.43.0


From 4cf55bca27cc94e596915733408a6e0c56d02845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:27 +0000
Subject: [PATCH 10/54] fix: trapeze solver evaluates the end-of-step
 derivative at the start time

---
 nbody/nbody_solver_trapeze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_solver_trapeze.cpp b/nbody/nbody_solver_trapeze.cpp
index a98334c..e37f7ee 100644
--- a/nbody/nbody_solver_trapeze.cpp
+++ b/nbody/nbody_solver_trapeze.cpp
@@ -44,7 +44,7 @@ void nbody_solver_trapeze::advise(nbcoord_t dt)
 	for(size_t s = 0; s <= m_refine_steps_count; ++s)
 	{
 		const nbcoord_t	coeff[] = { dt / 2_f, dt / 2_f };
-		engine()->fcompute(t, m_predictor, m_f[1]);
+		engine()->fcompute(t + dt, m_predictor, m_f[1]);
 
 		if(s == m_refine_steps_count)
 		{
-- 
2.43.0


From 401aacb31df35aa6ff11147112680f2469c59f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:27 +0000
Subject: [PATCH 11/54] fix: Bulirsch-Stoer solver counts its internal substeps
 as simulation steps

---
 nbody/nbody_solver_bulirsch_stoer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbody/nbody_solver_bulirsch_stoer.cpp b/nbody/nbody_solver_bulirsch_stoer.cpp
index a457f44..7f92e51 100644
--- a/nbody/nbody_solver_bulirsch_stoer.cpp
+++ b/nbody/nbody_solver_bulirsch_stoer.cpp
@@ -98,6 +98,7 @@ void nbody_solver_bulirsch_stoer::advise(nbcoord_t dt)
 
 	nbody_engine::memory*	y = engine()->get_y();
 	nbcoord_t				t0(engine()->get_time());
+	size_t					step0(engine()->get_step());
 
 	engine()->copy_buffer(m_y0, y);
 
@@ -121,6 +122,7 @@ void nbody_solver_bulirsch_stoer::advise(nbcoord_t dt)
 	}
 
 	engine()->set_time(t0);
+	engine()->set_step(step0);
 	engine()->advise_time(dt);
 }
 
-- 
2.43.0


From 6b1f3f0daf9151badcb937731356afafacfe8175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:27 +0000
Subject: [PATCH 12/54] fix: Bulirsch-Stoer solver never extrapolates when
 max_level is below 3

---
 nbody/nbody_solver_bulirsch_stoer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_solver_bulirsch_stoer.cpp b/nbody/nbody_solver_bulirsch_stoer.cpp
index 7f92e51..ce745b6 100644
--- a/nbody/nbody_solver_bulirsch_stoer.cpp
+++ b/nbody/nbody_solver_bulirsch_stoer.cpp
@@ -108,7 +108,7 @@ void nbody_solver_bulirsch_stoer::advise(nbcoord_t dt)
 //		g << level << engine()->get_time() << t0;
 		compute_substep(level, dt, t0);
 
-		if(level < 2)
+		if(level < 2 && level != m_max_level - 1)
 		{
 			continue;
 		}
-- 
2.43.0


From dd1800a76e7ccf9a2a6dce882cbed4c3d5e7f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:27 +0000
Subject: [PATCH 13/54] fix: resetting the Adams solver leaves its starter in
 the old state

---
 nbody/nbody_solver_adams.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index 64d215e..644a841 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -100,5 +100,6 @@ void nbody_solver_adams::reset()
 	{
 		engine()->fill_buffer(m_corr_data, 0);
 	}
+	m_starter->reset();
 	m_step = 0;
 }
-- 
2.43.0


From 0c9836109b60e1fcad9c61d0723a6cc9cb8438fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:27 +0000
Subject: [PATCH 14/54] fix: resetting an implicit Runge-Kutta solver keeps the
 stage values of the old trajectory

---
 nbody/nbody_solver_rk_butcher.cpp | 8 +++++---
 nbody/nbody_solver_rk_butcher.h   | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_solver_rk_butcher.cpp b/nbody/nbody_solver_rk_butcher.cpp
index 51964a3..d1e8681 100644
--- a/nbody/nbody_solver_rk_butcher.cpp
+++ b/nbody/nbody_solver_rk_butcher.cpp
@@ -12,7 +12,8 @@ nbody_solver_rk_butcher::nbody_solver_rk_butcher(nbody_butcher_table* t) :
 	m_substep_subdivisions(8),
 	m_error_threshold(1e-4),
 	m_refine_steps_count(1),
-	m_correction(false)
+	m_correction(false),
+	m_need_first_approach_k(true)
 {
 }
 
@@ -90,6 +91,7 @@ void nbody_solver_rk_butcher::reset()
 	{
 		engine()->fill_buffer(m_tcorr_data, 0);
 	}
+	m_need_first_approach_k = true;
 }
 
 const nbody_butcher_table* nbody_solver_rk_butcher::table() const
@@ -173,14 +175,13 @@ void nbody_solver_rk_butcher::sub_step(size_t substeps_count, nbcoord_t t, nbcoo
 	const nbcoord_t*	c = m_bt->get_c();
 	size_t				ps = engine()->problem_size();
 	size_t				coeff_count = steps + 1;
-	bool				need_first_approach_k = false;
+	bool				need_first_approach_k = m_need_first_approach_k;
 
 	std::vector<nbcoord_t>	coeff;
 	coeff.resize(coeff_count);
 
 	if(m_k.empty())
 	{
-		need_first_approach_k  = true;
 		m_k = engine()->create_buffers(sizeof(nbcoord_t) * ps, steps);
 		m_t = engine()->create_buffer(sizeof(nbcoord_t) * ps);
 		m_tmpk = engine()->create_buffer(sizeof(nbcoord_t) * ps);
@@ -194,6 +195,7 @@ void nbody_solver_rk_butcher::sub_step(size_t substeps_count, nbcoord_t t, nbcoo
 		}
 	}
 
+	m_need_first_approach_k = false;
 	for(size_t sub_n = 0; sub_n != substeps_count; ++sub_n, t += dt)
 	{
 		if(m_bt->is_implicit())
diff --git a/nbody/nbody_solver_rk_butcher.h b/nbody/nbody_solver_rk_butcher.h
index 7b62772..a2b6dae 100644
--- a/nbody/nbody_solver_rk_butcher.h
+++ b/nbody/nbody_solver_rk_butcher.h
@@ -19,6 +19,7 @@ class NBODY_DLL nbody_solver_rk_butcher : public nbody_solver
 	nbcoord_t					m_error_threshold;
 	size_t						m_refine_steps_count;
 	bool						m_correction;
+	bool						m_need_first_approach_k;
 public:
 	explicit nbody_solver_rk_butcher(nbody_butcher_table*);
 	~nbody_solver_rk_butcher();
-- 
2.43.0


From 17b76470d912916453cfe0bcc60ade73bd1a2510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:03 +0000
Subject: [PATCH 15/54] fix: solver factory accepts invalid numeric parameters
 (adams rank outside 1..5 reads out of bounds, zero max_step hangs)

---
 nbody/nbody_solvers.cpp | 54 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/nbody/nbody_solvers.cpp b/nbody/nbody_solvers.cpp
index f78e336..9d4c79c 100644
--- a/nbody/nbody_solvers.cpp
+++ b/nbody/nbody_solvers.cpp
@@ -1,4 +1,53 @@
 #include "nbody_solvers.h"
+#include <QDebug>
+#include <cmath>
+#include <limits>
+
+static bool is_valid_uint(const QVariantMap& param, const char* name, uint min_value, uint max_value)
+{
+	if(!param.contains(name))
+	{
+		return true;
+	}
+	bool	ok = false;
+	uint	value = param.value(name).toUInt(&ok);
+	if(!ok || value < min_value || value > max_value)
+	{
+		qDebug() << "Invalid" << name << param.value(name);
+		return false;
+	}
+	return true;
+}
+
+static bool is_valid_real(const QVariantMap& param, const char* name)
+{
+	if(!param.contains(name))
+	{
+		return true;
+	}
+	bool	ok = false;
+	double	value = param.value(name).toDouble(&ok);
+	if(!ok || !std::isfinite(value))
+	{
+		qDebug() << "Invalid" << name << param.value(name);
+		return false;
+	}
+	return true;
+}
+
+static bool is_valid_solver_param(const QVariantMap& param)
+{
+	const uint	max_uint = std::numeric_limits<uint>::max();
+	return is_valid_uint(param, "rank", 1, 5) &&
+		   is_valid_uint(param, "max_level", 1, max_uint) &&
+		   is_valid_uint(param, "max_recursion", 0, max_uint) &&
+		   is_valid_uint(param, "refine_steps_count", 0, max_uint) &&
+		   is_valid_uint(param, "substep_subdivisions", 1, max_uint) &&
+		   is_valid_real(param, "error_threshold") &&
+		   is_valid_real(param, "min_step") &&
+		   is_valid_real(param, "max_step") &&
+		   param.value("max_step", 1e-2).toDouble() > 0;
+}
 
 template<class Solver>
 static nbody_solver* create_butcher_solver(const QVariantMap& param)
@@ -18,6 +67,11 @@ nbody_solver* nbody_create_solver(const QVariantMap& param)
 {
 	const QString	type(param.value("solver").toString());
 	nbody_solver*	solver = NULL;
+
+	if(!is_valid_solver_param(param))
+	{
+		return NULL;
+	}
 	if(type == "adams")
 	{
 		QVariantMap	starter_param(param);
-- 
2.43.0


From 1201b8ee1a6f25a42885d35abb20d75fe9e4ccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:52 +0000
Subject: [PATCH 16/54] fix: adams solver with adams starter recurses until the
 stack overflows

---
 nbody/nbody_solvers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_solvers.cpp b/nbody/nbody_solvers.cpp
index 9d4c79c..d1e05ce 100644
--- a/nbody/nbody_solvers.cpp
+++ b/nbody/nbody_solvers.cpp
@@ -76,6 +76,7 @@ nbody_solver* nbody_create_solver(const QVariantMap& param)
 	{
 		QVariantMap	starter_param(param);
 		starter_param["solver"] = param.value("starter_solver", "euler");
+		starter_param.remove("starter_solver");
 		nbody_solver*	starter = nbody_create_solver(starter_param);
 		if(starter == NULL)
 		{
-- 
2.43.0


From 6198f10d788ac7705b464e21e0d4a453afef9298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:49 +0000
Subject: [PATCH 17/54] fix: making a universe of zero stars never ends

---
 nbody/nbody_data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 2f8e990..d6f3a69 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -264,6 +264,11 @@ void nbody_data::add_galaxy(const nbvertex_t& center, const nbvertex_t& velosity
 							nbcoord_t radius, nbcoord_t total_mass,
 							size_t count, const nbcolor_t& color)
 {
+	if(count == 0)
+	{
+		return;
+	}
+
 	std::mt19937_64	rng;
 	std::uniform_real_distribution<double> uniform(-radius, radius);
 	count = round_up(count, NBODY_DATA_BLOCK_SIZE) - 1;
-- 
2.43.0


From 792c6e834101a9b2230b3f8a2a33534e406933eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:32 +0000
Subject: [PATCH 18/54] fix: stream index stores frame times with six digits
 only

---
 nbody/nbody_data_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 56297e7..cf6cb36 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -54,6 +54,7 @@ struct nbody_data_stream::data
 			return -1;
 		}
 		m_idx_stream.setDevice(&m_idx);
+		m_idx_stream.setRealNumberPrecision(16);
 		return 0;
 	}
 
-- 
2.43.0


From eaa46a7ccd4c051309545c84b8fdfd80dc8b3e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:32 +0000
Subject: [PATCH 19/54] fix: reading a stream frame again reads from where the
 last read stopped

---
 nbody/nbody_data_stream_reader.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index c6b834e..3881495 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -221,11 +221,6 @@ nbcoord_t nbody_data_stream_reader::get_max_time() const
 
 int nbody_data_stream_reader::seek(size_t frame)
 {
-	if(frame == d->m_current_frame)
-	{
-		return 0;
-	}
-
 	if(frame >= d->m_frames.size())
 	{
 		qDebug() << "Can't seek to frame" << frame << "Out of range";
@@ -327,11 +322,7 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 	bdata->set_step(frame.step);
 	if(d->m_current_frame < d->m_frames.size() - 1)
 	{
-		if(0 != seek(d->m_current_frame + 1))
-		{
-			qDebug() << "Seek to frame #" << d->m_current_frame + 1
-					 << "failed, but current #" << d->m_current_frame << "is OK";
-		}
+		++d->m_current_frame;
 	}
 
 	if(!d->m_colors_read)
-- 
2.43.0


From d9b143511e39d22c13f24dac1b08f26504f7f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:01 +0000
Subject: [PATCH 20/54] fix: stream reader delivers masses and colours to its
 first destination only

---
 nbody/nbody_data_stream_reader.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 3881495..af5c0a7 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -31,6 +31,8 @@ struct nbody_data_stream_reader::data
 	size_t						m_box_size;
 	bool						m_colors_read;
 	bool						m_masses_read;
+	std::vector<nbcolor_t>		m_colors;
+	std::vector<nbcoord_t>		m_masses;
 	data() :
 		m_file_n(std::numeric_limits<size_t>::max()),
 		m_current_frame(std::numeric_limits<size_t>::max()),
@@ -71,7 +73,7 @@ struct nbody_data_stream_reader::data
 		}
 	}
 
-	int read_colors(nbody_data* bdata)
+	int read_colors()
 	{
 		QFile	col(nbody_data_stream::make_col_name(m_file_base_name));
 		if(!col.open(QFile::ReadOnly))
@@ -79,8 +81,9 @@ struct nbody_data_stream_reader::data
 			qDebug() << "Can't open file" << col.fileName() << col.errorString();
 			return -1;
 		}
-		qint64		col_sz(sizeof(nbcolor_t)*bdata->get_count());
-		if(col_sz != col.read(reinterpret_cast<char*>(bdata->get_color()), col_sz))
+		qint64		col_sz(sizeof(nbcolor_t)*m_body_count);
+		m_colors.resize(m_body_count);
+		if(col_sz != col.read(reinterpret_cast<char*>(m_colors.data()), col_sz))
 		{
 			qDebug() << "Can't read file" << col.fileName() << col.errorString();
 			return -1;
@@ -88,7 +91,7 @@ struct nbody_data_stream_reader::data
 		return 0;
 	}
 
-	int read_masses(nbody_data* bdata)
+	int read_masses()
 	{
 		QFile	mass(nbody_data_stream::make_mass_name(m_file_base_name));
 		if(!mass.open(QFile::ReadOnly))
@@ -96,8 +99,9 @@ struct nbody_data_stream_reader::data
 			qDebug() << "Can't open file" << mass.fileName() << mass.errorString();
 			return -1;
 		}
-		qint64		mass_sz(sizeof(nbcoord_t)*bdata->get_count());
-		if(mass_sz != mass.read(reinterpret_cast<char*>(bdata->get_mass()), mass_sz))
+		qint64		mass_sz(sizeof(nbcoord_t)*m_body_count);
+		m_masses.resize(m_body_count);
+		if(mass_sz != mass.read(reinterpret_cast<char*>(m_masses.data()), mass_sz))
 		{
 			qDebug() << "Can't read file" << mass.fileName() << mass.errorString();
 			return -1;
@@ -327,14 +331,21 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 
 	if(!d->m_colors_read)
 	{
-		d->m_colors_read = (0 == d->read_colors(bdata));
+		d->m_colors_read = (0 == d->read_colors());
+	}
+	if(d->m_colors_read)
+	{
+		std::copy(d->m_colors.begin(), d->m_colors.end(), bdata->get_color());
 	}
 
 	if(!d->m_masses_read)
 	{
-		d->m_masses_read = (0 == d->read_masses(bdata));
+		d->m_masses_read = (0 == d->read_masses());
+	}
+	if(d->m_masses_read)
+	{
+		std::copy(d->m_masses.begin(), d->m_masses.end(), bdata->get_mass());
 	}
-
 
 	return 0;
 }
-- 
2.43.0


From 817c7123fb2b87a7e61d03064407535aaa055159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:01 +0000
Subject: [PATCH 21/54] fix: stream reader keeps header, masses and colours of
 the stream it had open before

---
 nbody/nbody_data_stream_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index af5c0a7..6aef510 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -198,6 +198,11 @@ void nbody_data_stream_reader::close()
 	d->m_file.close();
 	d->m_file_n = std::numeric_limits<size_t>::max();
 	d->m_current_frame = std::numeric_limits<size_t>::max();
+	d->m_coord_size = 0;
+	d->m_body_count = 0;
+	d->m_box_size = 0;
+	d->m_colors_read = false;
+	d->m_masses_read = false;
 }
 
 size_t nbody_data_stream_reader::get_frame_count() const
-- 
2.43.0


From 399ec6f298c714ba27d94f2b5dcc1c93811766b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:22 +0000
Subject: [PATCH 22/54] fix: reading a frame succeeds with the masses left
 unset when the mass file is missing or short

---
 nbody/nbody_data_stream_reader.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 6aef510..32df8d0 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -310,6 +310,13 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		return -1;
 	}
 
+	if(!d->m_masses_read && 0 != d->read_masses())
+	{
+		qDebug() << "Can't read masses";
+		return -1;
+	}
+	d->m_masses_read = true;
+
 	qint64				fpos(d->m_file.pos());
 	qint64				sz(sizeof(nbvertex_t)*bdata->get_count());
 	const data::item&	frame(d->m_frames[ d->m_current_frame ]);
@@ -343,14 +350,7 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		std::copy(d->m_colors.begin(), d->m_colors.end(), bdata->get_color());
 	}
 
-	if(!d->m_masses_read)
-	{
-		d->m_masses_read = (0 == d->read_masses());
-	}
-	if(d->m_masses_read)
-	{
-		std::copy(d->m_masses.begin(), d->m_masses.end(), bdata->get_mass());
-	}
+	std::copy(d->m_masses.begin(), d->m_masses.end(), bdata->get_mass());
 
 	return 0;
 }
-- 
2.43.0


From fc77abfb6cb4c3581a38e3de926081bc51a84b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:22 +0000
Subject: [PATCH 23/54] fix: a stream reader whose load failed still seeks and
 reads in files of an empty base name

---
 nbody/nbody_data_stream_reader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 32df8d0..7c37d21 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -146,6 +146,7 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 		if(parts.size() != 4)
 		{
 			qDebug() << "Incomplete data line " << line;
+			close();
 			return -1;
 		}
 
@@ -161,6 +162,7 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 		if(!(ok[0] && ok[1] && ok[2] && ok[3]))
 		{
 			qDebug() << "Invalid data line" << line;
+			close();
 			return -1;
 		}
 
@@ -175,6 +177,7 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 				 << "'coord_size' == " << d->m_coord_size
 				 << "'body_count' == " << d->m_body_count
 				 << "'box_size' == " << d->m_box_size;
+		close();
 		return -1;
 	}
 	if(d->m_coord_size != sizeof(nbcoord_t))
@@ -182,11 +185,17 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 		qDebug() << "Invalid file header "
 				 << "'coord_size' == " << d->m_coord_size
 				 << "must be " << sizeof(nbcoord_t);
+		close();
 		return -1;
 	}
 	d->m_file_base_name = file_base_name;
 
-	return seek(0);
+	if(0 != seek(0))
+	{
+		close();
+		return -1;
+	}
+	return 0;
 }
 
 void nbody_data_stream_reader::close()
-- 
2.43.0


From f90c069084b4982442b18a724b48f3e81b8108b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:22 +0000
Subject: [PATCH 24/54] fix: second stream recorded with one writer gets no
 header, colour and mass files

---
 nbody/nbody_data_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index cf6cb36..7a90a63 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -179,6 +179,7 @@ int nbody_data_stream::open(const QString& name, qint64 max_part_size,
 	else
 	{
 		d->m_file_n = 0;
+		d->m_header_written = false;
 	}
 
 	if(0 != d->open_data_file(append_mode))
-- 
2.43.0


From 2a4326e7441e003f06aa1cf517bb61e75530678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:15 +0000
Subject: [PATCH 25/54] fix: stream writer reports success when its files could
 not be written

---
 nbody/nbody_data_stream.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 7a90a63..5a29365 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -71,7 +71,7 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcolor_t)*bdata->get_count());
-			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz))
+			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz) || !col.flush())
 			{
 				qDebug() << "Can't write file" << col.fileName() << col.errorString();
 				return -1;
@@ -85,7 +85,7 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcoord_t)*bdata->get_count());
-			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz))
+			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz) || !mass.flush())
 			{
 				qDebug() << "Can't write file" << mass.fileName() << mass.errorString();
 				return -1;
@@ -150,8 +150,14 @@ int nbody_data_stream::write(const nbody_data* bdata)
 		return -1;
 	}
 
-	d->m_data.flush();
+	if(!d->m_data.flush())
+	{
+		qDebug() << "Can't write file" << d->m_data.fileName()
+				 << d->m_data.errorString();
+		return -1;
+	}
 
+	d->m_idx_stream.resetStatus();
 	d->m_idx_stream << bdata->get_step() << get_idx_separator()
 					<< bdata->get_time() << get_idx_separator()
 					<< d->m_file_n << get_idx_separator()
@@ -159,6 +165,13 @@ int nbody_data_stream::write(const nbody_data* bdata)
 
 	d->m_idx_stream.flush();
 
+	if(d->m_idx_stream.status() != QTextStream::Ok)
+	{
+		qDebug() << "Can't write file" << d->m_idx.fileName()
+				 << d->m_idx.errorString();
+		return -1;
+	}
+
 	return 0;
 }
 
-- 
2.43.0


From 2b4e216d135e0e269a1039fc5201d761b27e5e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:15 +0000
Subject: [PATCH 26/54] fix: saving a data set reports success when the file
 could not be written

---
 nbody/nbody_data.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index d6f3a69..94241ad 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -441,6 +441,13 @@ bool nbody_data::save(const QString& fn) const
 		  << m_mass[n] << " " << m_radius[n] << "\n";
 	}
 
+	s.flush();
+	if(s.status() != QTextStream::Ok)
+	{
+		qDebug() << "Can't write file" << fn << file.errorString();
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From 6b948b60a04cd366f5c5854e5910d8acd387b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:15 +0000
Subject: [PATCH 27/54] fix: reading a stream does not restore the box size, so
 resumed runs wrap all bodies into an empty box

---
 nbody/nbody_data.cpp               | 5 +++++
 nbody/nbody_data.h                 | 1 +
 nbody/nbody_data_stream_reader.cpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 94241ad..42546c4 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -245,6 +245,11 @@ size_t nbody_data::get_box_size() const
 	return m_box_size;
 }
 
+void nbody_data::set_box_size(size_t s)
+{
+	m_box_size = s;
+}
+
 size_t nbody_data::get_count() const
 {
 	return m_count;
diff --git a/nbody/nbody_data.h b/nbody/nbody_data.h
index 86609ad..c84660c 100644
--- a/nbody/nbody_data.h
+++ b/nbody/nbody_data.h
@@ -56,6 +56,7 @@ public:
 	nbcolor_t* get_color();
 	const nbcolor_t* get_color() const;
 	size_t get_box_size() const;
+	void set_box_size(size_t s);
 	void print_statistics(nbody_engine*);
 	void dump_body(size_t n);
 	bool resize(size_t);
diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 7c37d21..904f2af 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -345,6 +345,7 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 
 	bdata->set_time(frame.time);
 	bdata->set_step(frame.step);
+	bdata->set_box_size(d->m_box_size);
 	if(d->m_current_frame < d->m_frames.size() - 1)
 	{
 		++d->m_current_frame;
-- 
2.43.0


From 98e35f9b46481b6c71ae217a42d8d8e795c10002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:39 +0000
Subject: [PATCH 28/54] fix: a stream recorded from a data set without box size
 can not be loaded

---
 nbody/nbody_data_stream_reader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 904f2af..674d220 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -29,6 +29,7 @@ struct nbody_data_stream_reader::data
 	size_t						m_coord_size;
 	size_t						m_body_count;
 	size_t						m_box_size;
+	bool						m_box_size_read;
 	bool						m_colors_read;
 	bool						m_masses_read;
 	std::vector<nbcolor_t>		m_colors;
@@ -39,6 +40,7 @@ struct nbody_data_stream_reader::data
 		m_coord_size(0),
 		m_body_count(0),
 		m_box_size(0),
+		m_box_size_read(false),
 		m_colors_read(false),
 		m_masses_read(false)
 	{
@@ -70,6 +72,7 @@ struct nbody_data_stream_reader::data
 		else if(list[0] == "#box_size")
 		{
 			m_box_size = value;
+			m_box_size_read = true;
 		}
 	}
 
@@ -171,7 +174,7 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 		d->m_time2frame[i.time] = i.frame;
 	}
 
-	if(d->m_body_count == 0 || d->m_coord_size == 0 || d->m_box_size == 0)
+	if(d->m_body_count == 0 || d->m_coord_size == 0 || !d->m_box_size_read)
 	{
 		qDebug() << "Invalid file header "
 				 << "'coord_size' == " << d->m_coord_size
@@ -210,6 +213,7 @@ void nbody_data_stream_reader::close()
 	d->m_coord_size = 0;
 	d->m_body_count = 0;
 	d->m_box_size = 0;
+	d->m_box_size_read = false;
 	d->m_colors_read = false;
 	d->m_masses_read = false;
 }
-- 
2.43.0


From 02dec662df8d84515fc942167d851d83f232d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:39 +0000
Subject: [PATCH 29/54] fix: an incomplete last index line makes the whole
 stream unreadable and damages appended frames

---
 nbody/nbody_data_stream.cpp        | 18 ++++++++++++++++++
 nbody/nbody_data_stream_reader.cpp |  6 +++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 5a29365..7d6ff7d 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -40,6 +40,19 @@ struct nbody_data_stream::data
 		return 0;
 	}
 
+	//! Remove from index a line left by an interrupted write
+	int remove_incomplete_line()
+	{
+		if(!m_idx.open(QFile::ReadWrite))
+		{
+			return -1;
+		}
+		const qint64	size(m_idx.readAll().lastIndexOf('\n') + 1);
+		const bool		ok(size == m_idx.size() || m_idx.resize(size));
+		m_idx.close();
+		return ok ? 0 : -1;
+	}
+
 	int open_index_file(bool append)
 	{
 		if(m_idx.isOpen())
@@ -48,6 +61,11 @@ struct nbody_data_stream::data
 		}
 		m_idx.setFileName(make_idx_name(m_base_name));
 		QFile::OpenMode openmode = append ? QFile::Append : QFile::WriteOnly;
+		if(append && 0 != remove_incomplete_line())
+		{
+			qDebug() << "Can't repair file" << m_idx.fileName() << m_idx.errorString();
+			return -1;
+		}
 		if(!m_idx.open(openmode))
 		{
 			qDebug() << "Can't open file" << m_idx.fileName() << m_idx.errorString();
diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 674d220..c123f7a 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -134,7 +134,11 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 		return -1;
 	}
 
-	QTextStream	stream(&idx);
+	// A last line without line end was left by an interrupted write
+	QByteArray	text(idx.readAll());
+	text.truncate(text.lastIndexOf('\n') + 1);
+
+	QTextStream	stream(text);
 
 	while(!stream.atEnd())
 	{
-- 
2.43.0


From da7b52f3c2dc69652ee9e6acc217fa9da5f9be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:02 +0000
Subject: [PATCH 30/54] fix: loading a Zeno file turns non-numeric fields into
 zeros

---
 nbody/nbody_data.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 42546c4..9e51348 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -590,7 +590,13 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			return false;
 		}
 		QString	mass_line(s.readLine());
-		get_mass()[i] = mass_line.toDouble();
+		bool	ok = false;
+		get_mass()[i] = mass_line.toDouble(&ok);
+		if(!ok)
+		{
+			qDebug() << "Can't convert mass to double" << mass_line;
+			return false;
+		}
 	}
 	for(size_t i = 0; i != count; ++i)
 	{
@@ -605,9 +611,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << pos_line;
 			return false;
 		}
-		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(),
-									   pos_line[1].toDouble(),
-									   pos_line[2].toDouble());
+		bool	ok[3] = { false, false, false };
+		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(&ok[0]),
+									   pos_line[1].toDouble(&ok[1]),
+									   pos_line[2].toDouble(&ok[2]));
+		if(!(ok[0] && ok[1] && ok[2]))
+		{
+			qDebug() << "Can't convert vector to double" << pos_line;
+			return false;
+		}
 	}
 
 	for(size_t i = 0; i != count; ++i)
@@ -623,9 +635,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << vel_line;
 			return false;
 		}
-		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(),
-										vel_line[1].toDouble(),
-										vel_line[2].toDouble());
+		bool	ok[3] = { false, false, false };
+		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(&ok[0]),
+									   vel_line[1].toDouble(&ok[1]),
+									   vel_line[2].toDouble(&ok[2]));
+		if(!(ok[0] && ok[1] && ok[2]))
+		{
+			qDebug() << "Can't convert vector to double" << vel_line;
+			return false;
+		}
 	}
 	std::fill(m_color.begin(), m_color.end(), nbcolor_t(1, 1, 1, 1));
 	m_box_size = 1;
-- 
2.43.0


From cd9b2e5045c53b894b80030301d08ce4f588a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:02 +0000
Subject: [PATCH 31/54] fix: a huge body count in a Zeno file or stream header
 ends the program with an exception

---
 nbody/nbody_data.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 9e51348..9cebf37 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -154,11 +154,20 @@ void nbody_data::dump_body(size_t n)
 
 bool nbody_data::resize(size_t s)
 {
-	m_vertites.resize(s);
-	m_velosites.resize(s);
-	m_mass.resize(s);
-	m_color.resize(s);
-	m_radius.resize(s);
+	try
+	{
+		m_vertites.resize(s);
+		m_velosites.resize(s);
+		m_mass.resize(s);
+		m_color.resize(s);
+		m_radius.resize(s);
+	}
+	catch(const std::exception& e)
+	{
+		qDebug() << "Can't resize data to count" << s << e.what();
+		clear();
+		return false;
+	}
 	m_count = s;
 	return true;
 }
@@ -574,10 +583,11 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			return false;
 		}
 	}
-	if(!resize(count))
+	// Every body occupies three lines, so there are never more bodies than bytes
+	if(count > static_cast<size_t>(file.size()) || !resize(count))
 	{
 		qDebug() << "Can't resize data to count" << count;
-		return 0;
+		return false;
 	}
 
 	qDebug() << "Zeno stars count is" << count;
-- 
2.43.0


From f6885269305e6f78105d32729c1d81477c90b4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:18 +0000
Subject: [PATCH 32/54] fix: rejecting an initial state file leaves the bodies
 read so far in the data set

---
 nbody/nbody_data.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 9cebf37..83b9130 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -502,6 +502,7 @@ bool nbody_data::load(const QString& fn, e_units_type unit_type)
 					 << "<" << line << "> \n"
 					 << "Format is 'X Y Z Vx Vy Vz Mass <Radius> <Some other data>',"
 					 << " comment is '//'";
+			clear();
 			return false;
 		}
 		nbcoord_t	rvm[7];
@@ -514,6 +515,7 @@ bool nbody_data::load(const QString& fn, e_units_type unit_type)
 				qDebug() << "Can't convert column" << n
 						 << "to double at line " << line_n
 						 << "<" << line << ">";
+				clear();
 				return false;
 			}
 		}
@@ -526,6 +528,7 @@ bool nbody_data::load(const QString& fn, e_units_type unit_type)
 			{
 				qDebug() << "Can't convert 'radius' column to double at line "
 						 << "<" << line << ">";
+				clear();
 				return false;
 			}
 		}
@@ -558,6 +561,7 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 		if(!ok)
 		{
 			qDebug() << "Can't read body count from" << fn;
+			clear();
 			return false;
 		}
 	}
@@ -568,11 +572,13 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 		if(!ok)
 		{
 			qDebug() << "Can't read body dimensions from" << fn;
+			clear();
 			return false;
 		}
 		if(dim != ZENO_DIM)
 		{
 			qDebug() << "Invalid dimension count" << dim << "in" << fn;
+			clear();
 			return false;
 		}
 	}
@@ -580,6 +586,7 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 		QString line_skip(s.readLine());
 		if(line_skip.isEmpty())
 		{
+			clear();
 			return false;
 		}
 	}
@@ -587,6 +594,7 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 	if(count > static_cast<size_t>(file.size()) || !resize(count))
 	{
 		qDebug() << "Can't resize data to count" << count;
+		clear();
 		return false;
 	}
 
@@ -597,6 +605,7 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 		if(s.atEnd())
 		{
 			qDebug() << "Unexpected data stream end";
+			clear();
 			return false;
 		}
 		QString	mass_line(s.readLine());
@@ -605,6 +614,7 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 		if(!ok)
 		{
 			qDebug() << "Can't convert mass to double" << mass_line;
+			clear();
 			return false;
 		}
 	}
@@ -613,12 +623,14 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 		if(s.atEnd())
 		{
 			qDebug() << "Unexpected data stream end";
+			clear();
 			return false;
 		}
 		QStringList	pos_line(s.readLine().split(QChar(' '), QString::SkipEmptyParts));
 		if(pos_line.size() != ZENO_DIM)
 		{
 			qDebug() << "Invalid vector dimensions" << pos_line;
+			clear();
 			return false;
 		}
 		bool	ok[3] = { false, false, false };
@@ -628,6 +640,7 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 		if(!(ok[0] && ok[1] && ok[2]))
 		{
 			qDebug() << "Can't convert vector to double" << pos_line;
+			clear();
 			return false;
 		}
 	}
@@ -637,12 +650,14 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 		if(s.atEnd())
 		{
 			qDebug() << "Unexpected data stream end";
+			clear();
 			return false;
 		}
 		QStringList	vel_line(s.readLine().split(QChar(' '), QString::SkipEmptyParts));
 		if(vel_line.size() != ZENO_DIM)
 		{
 			qDebug() << "Invalid vector dimensions" << vel_line;
+			clear();
 			return false;
 		}
 		bool	ok[3] = { false, false, false };
@@ -652,6 +667,7 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 		if(!(ok[0] && ok[1] && ok[2]))
 		{
 			qDebug() << "Can't convert vector to double" << vel_line;
+			clear();
 			return false;
 		}
 	}
-- 
2.43.0


From cecaa4736b8603f6d383059beeddca375e11d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:18 +0000
Subject: [PATCH 33/54] fix: clearing a data set keeps time, step, box and
 reference values of the old contents

---
 nbody/nbody_data.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 83b9130..e0e008e 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -431,6 +431,12 @@ void nbody_data::clear()
 	m_color.clear();
 	m_radius.clear();
 	m_count = 0;
+	m_time = 0;
+	m_step = 0;
+	m_box_size = 0;
+	m_initial_values_computed = false;
+	m_prev_compute_count = 0;
+	m_timer_step = 0;
 }
 
 bool nbody_data::save(const QString& fn) const
-- 
2.43.0


From b727576f71cf6b326d1fbc63f38e381e616f2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:09 +0000
Subject: [PATCH 34/54] fix: stream frame with the largest part number is read
 from whatever part is open

---
 nbody/nbody_data_stream_reader.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index c123f7a..b73da2b 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -24,7 +24,6 @@ struct nbody_data_stream_reader::data
 	std::map<nbcoord_t, size_t>	m_time2frame;
 	QString						m_file_base_name;
 	QFile						m_file;
-	size_t						m_file_n;
 	size_t						m_current_frame;
 	size_t						m_coord_size;
 	size_t						m_body_count;
@@ -35,7 +34,6 @@ struct nbody_data_stream_reader::data
 	std::vector<nbcolor_t>		m_colors;
 	std::vector<nbcoord_t>		m_masses;
 	data() :
-		m_file_n(std::numeric_limits<size_t>::max()),
 		m_current_frame(std::numeric_limits<size_t>::max()),
 		m_coord_size(0),
 		m_body_count(0),
@@ -212,7 +210,6 @@ void nbody_data_stream_reader::close()
 	d->m_time2frame.clear();
 	d->m_file_base_name.clear();
 	d->m_file.close();
-	d->m_file_n = std::numeric_limits<size_t>::max();
 	d->m_current_frame = std::numeric_limits<size_t>::max();
 	d->m_coord_size = 0;
 	d->m_body_count = 0;
@@ -255,15 +252,12 @@ int nbody_data_stream_reader::seek(size_t frame)
 
 	const data::item&	i(d->m_frames[frame]);
 
-	if(d->m_file_n != i.file_n || !d->m_file.isOpen())
+	d->m_file.close();
+	d->m_file.setFileName(nbody_data_stream::make_dat_name(d->m_file_base_name, i.file_n));
+	if(!d->m_file.open(QFile::ReadOnly))
 	{
-		d->m_file.close();
-		d->m_file.setFileName(nbody_data_stream::make_dat_name(d->m_file_base_name, i.file_n));
-		if(!d->m_file.open(QFile::ReadOnly))
-		{
-			qDebug() << "Can't open file" << d->m_file.fileName() << d->m_file.errorString();
-			return -1;
-		}
+		qDebug() << "Can't open file" << d->m_file.fileName() << d->m_file.errorString();
+		return -1;
 	}
 
 	if(!d->m_file.seek(i.file_pos))
-- 
2.43.0


From 7fe837cfa8a189dcbf167ec5810d50363ab3fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:45 +0000
Subject: [PATCH 35/54] fix: frames written after a failed write land at
 another place than the index says

---
 nbody/nbody_data_stream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 7d6ff7d..653deb9 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -140,6 +140,7 @@ int nbody_data_stream::write(const nbody_data* bdata)
 	if((!d->m_header_written) && 0 != d->write_header(bdata))
 	{
 		qDebug() << "Write header failed";
+		close();
 		return -1;
 	}
 
@@ -149,6 +150,7 @@ int nbody_data_stream::write(const nbody_data* bdata)
 		if(0 != d->open_data_file())
 		{
 			qDebug() << "Can't d->open_data_file()";
+			close();
 			return -1;
 		}
 	}
@@ -159,12 +161,14 @@ int nbody_data_stream::write(const nbody_data* bdata)
 	{
 		qDebug() << "Can't write file" << d->m_data.fileName()
 				 << d->m_data.errorString();
+		close();
 		return -1;
 	}
 	if(sz != d->m_data.write(reinterpret_cast<const char*>(bdata->get_velosites()), sz))
 	{
 		qDebug() << "Can't write file" << d->m_data.fileName()
 				 << d->m_data.errorString();
+		close();
 		return -1;
 	}
 
@@ -172,6 +176,7 @@ int nbody_data_stream::write(const nbody_data* bdata)
 	{
 		qDebug() << "Can't write file" << d->m_data.fileName()
 				 << d->m_data.errorString();
+		close();
 		return -1;
 	}
 
@@ -187,6 +192,7 @@ int nbody_data_stream::write(const nbody_data* bdata)
 	{
 		qDebug() << "Can't write file" << d->m_idx.fileName()
 				 << d->m_idx.errorString();
+		close();
 		return -1;
 	}
 
-- 
2.43.0


From e3b66582c46fbef9e0cb5dcf74bce59e89f9ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 36/54] fix: coordinates beyond 2^64 overflow the box size of a
 loaded initial state

---
 nbody/nbody_data.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index e0e008e..ff2159a 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -9,6 +9,7 @@
 #include "summation_proxy.h"
 
 #include <omp.h>
+#include <limits>
 #include <random>
 
 namespace {
@@ -720,7 +721,10 @@ bool nbody_data::load_initial(const QString& fn, const QString& type)
 		r.z = std::max(v.z, r.z);
 	}
 
-	m_box_size = static_cast<size_t>(std::max(r.x, std::max(r.y, r.z)));
+	nbcoord_t	box_size(std::max(r.x, std::max(r.y, r.z)));
+	nbcoord_t	box_size_limit(static_cast<nbcoord_t>(std::numeric_limits<size_t>::max()));
+
+	m_box_size = box_size < box_size_limit ? static_cast<size_t>(box_size) : std::numeric_limits<size_t>::max();
 
 	return ret;
 }
-- 
2.43.0


From 54da60e80502ff27f842ebef54288d6e250494aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:14 +0000
Subject: [PATCH 37/54] fix: command line values that contain '=' are ignored
 (output goes to the default stream)

---
 nbody/nbody_arg_parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbody/nbody_arg_parser.cpp b/nbody/nbody_arg_parser.cpp
index 92b4b8e..c120c5b 100644
--- a/nbody/nbody_arg_parser.cpp
+++ b/nbody/nbody_arg_parser.cpp
@@ -1,6 +1,5 @@
 #include "nbody_arg_parser.h"
 #include <QDebug>
-#include <QStringList>
 
 QVariantMap nbody_parse_arguments(int argc, char** argv)
 {
@@ -15,13 +14,14 @@ QVariantMap nbody_parse_arguments(int argc, char** argv)
 			continue;
 		}
 
-		QStringList	p(arg.mid(arg_prefix.length()).split("="));
-		if(p.size() != 2)
+		// The value may contain '=' too (for example a file name)
+		int			separator(arg.indexOf("="));
+		if(separator < 0)
 		{
 			qDebug() << "Invalid argument format" << arg;
 			continue;
 		}
-		param[p[0]] = p[1];
+		param[arg.mid(arg_prefix.length(), separator - arg_prefix.length())] = arg.mid(separator + 1);
 	}
 
 	return param;
-- 
2.43.0


From 54f6b6745683373239a189f603d74dd303c1f906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:14 +0000
Subject: [PATCH 38/54] fix: solver factory takes any text for a boolean
 parameter as true (clamp=no enables it)

---
 nbody/nbody_solvers.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nbody/nbody_solvers.cpp b/nbody/nbody_solvers.cpp
index d1e05ce..a400b41 100644
--- a/nbody/nbody_solvers.cpp
+++ b/nbody/nbody_solvers.cpp
@@ -35,6 +35,17 @@ static bool is_valid_real(const QVariantMap& param, const char* name)
 	return true;
 }
 
+static bool is_valid_bool(const QVariantMap& param, const char* name)
+{
+	const QString	value(param.value(name, false).toString().toLower());
+	if(value != "true" && value != "false" && value != "1" && value != "0")
+	{
+		qDebug() << "Invalid" << name << param.value(name);
+		return false;
+	}
+	return true;
+}
+
 static bool is_valid_solver_param(const QVariantMap& param)
 {
 	const uint	max_uint = std::numeric_limits<uint>::max();
@@ -46,6 +57,8 @@ static bool is_valid_solver_param(const QVariantMap& param)
 		   is_valid_real(param, "error_threshold") &&
 		   is_valid_real(param, "min_step") &&
 		   is_valid_real(param, "max_step") &&
+		   is_valid_bool(param, "correction") &&
+		   is_valid_bool(param, "clamp") &&
 		   param.value("max_step", 1e-2).toDouble() > 0;
 }
 
-- 
2.43.0


From ac17ff6ef54eccaa1f12c7934b351bbd7f1f8dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:14 +0000
Subject: [PATCH 39/54] fix: engine factory accepts invalid numeric parameters

---
 nbody/nbody_engines.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/nbody/nbody_engines.cpp b/nbody/nbody_engines.cpp
index f6b5734..b094f76 100644
--- a/nbody/nbody_engines.cpp
+++ b/nbody/nbody_engines.cpp
@@ -1,10 +1,50 @@
 #include "nbody_engines.h"
+#include <QDebug>
+#include <cmath>
 
+static bool is_valid_real(const QVariantMap& param, const char* name, nbcoord_t min_value)
+{
+	if(!param.contains(name))
+	{
+		return true;
+	}
+	bool	ok = false;
+	double	value = param.value(name).toDouble(&ok);
+	if(!ok || !std::isfinite(value) || value < min_value)
+	{
+		qDebug() << "Invalid" << name << param.value(name);
+		return false;
+	}
+	return true;
+}
+
+static bool is_valid_engine_param(const QVariantMap& param)
+{
+	bool	full_recompute_rate_ok = true;
+	bool	tree_build_rate_ok = true;
+	bool	block_size_ok = true;
+
+	param.value("full_recompute_rate", 1000).toUInt(&full_recompute_rate_ok);
+	param.value("tree_build_rate", 0).toULongLong(&tree_build_rate_ok);
+	if(!full_recompute_rate_ok || !tree_build_rate_ok ||
+	   param.value("block_size", NBODY_DATA_BLOCK_SIZE).toInt(&block_size_ok) <= 0 || !block_size_ok)
+	{
+		qDebug() << "Invalid full_recompute_rate, tree_build_rate or block_size" << param;
+		return false;
+	}
+	return is_valid_real(param, "max_dist", 0) &&
+		   is_valid_real(param, "min_force", 0) &&
+		   is_valid_real(param, "distance_to_node_radius_ratio", 0);
+}
 
 nbody_engine* nbody_create_engine(const QVariantMap& param)
 {
 	const QString type(param.value("engine").toString());
 
+	if(!is_valid_engine_param(param))
+	{
+		return NULL;
+	}
 	if(type == "ah")
 	{
 		size_t		full_recompute_rate = param.value("full_recompute_rate", 1000).toUInt();
-- 
2.43.0


From 072c9c699d146ed2137022ddc85835f17e3c511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:16 +0000
Subject: [PATCH 40/54] fix: initialising a CPU engine again leaks its buffers
 and keeps tree and neighbour lists of the old bodies

---
 nbody/nbody_engine_ah.cpp        |  7 +++++++
 nbody/nbody_engine_ah.h          |  1 +
 nbody/nbody_engine_simple.cpp    |  2 ++
 nbody/nbody_engine_simple_bh.cpp | 12 ++++++++++--
 nbody/nbody_engine_simple_bh.h   |  2 ++
 5 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_engine_ah.cpp b/nbody/nbody_engine_ah.cpp
index 6cf43f4..1fd668a 100644
--- a/nbody/nbody_engine_ah.cpp
+++ b/nbody/nbody_engine_ah.cpp
@@ -13,6 +13,13 @@ const char* nbody_engine_ah::type_name() const
 	return "nbody_engine_ah";
 }
 
+bool nbody_engine_ah::init(nbody_data* data)
+{
+	m_univerce_force.clear();
+	m_adjacent_body.clear();
+	return nbody_engine_simple::init(data);
+}
+
 void nbody_engine_ah::fcompute(const nbcoord_t& t, const memory* _y, memory* _f)
 {
 	Q_UNUSED(t);
diff --git a/nbody/nbody_engine_ah.h b/nbody/nbody_engine_ah.h
index c6d0ecc..f6242be 100644
--- a/nbody/nbody_engine_ah.h
+++ b/nbody/nbody_engine_ah.h
@@ -19,6 +19,7 @@ class NBODY_DLL nbody_engine_ah : public nbody_engine_simple
 public:
 	explicit nbody_engine_ah(size_t full_recompute_rate = 1000, nbcoord_t max_dist = 10, nbcoord_t min_force = 1e-4);
 	const char* type_name() const override;
+	bool init(nbody_data* data) override;
 	void fcompute(const nbcoord_t& t, const memory* y, memory* f) override;
 private:
 	void fcompute_full(const smemory* y, smemory* f);
diff --git a/nbody/nbody_engine_simple.cpp b/nbody/nbody_engine_simple.cpp
index d0cb82b..19497b3 100644
--- a/nbody/nbody_engine_simple.cpp
+++ b/nbody/nbody_engine_simple.cpp
@@ -22,6 +22,8 @@ const char* nbody_engine_simple::type_name() const
 
 bool nbody_engine_simple::init(nbody_data* data)
 {
+	free_buffer(m_mass);
+	free_buffer(m_y);
 	m_data = data;
 	m_mass = create_buffer(sizeof(nbcoord_t) * m_data->get_count());
 	m_y = create_buffer(sizeof(nbcoord_t) * problem_size());
diff --git a/nbody/nbody_engine_simple_bh.cpp b/nbody/nbody_engine_simple_bh.cpp
index 77a6194..12e7fb0 100644
--- a/nbody/nbody_engine_simple_bh.cpp
+++ b/nbody/nbody_engine_simple_bh.cpp
@@ -8,7 +8,8 @@ nbody_engine_simple_bh::nbody_engine_simple_bh(nbcoord_t distance_to_node_radius
 	m_distance_to_node_radius_ratio(distance_to_node_radius_ratio),
 	m_traverse_type(tt),
 	m_tree_layout(tl),
-	m_tree_build_rate(tree_build_rate)
+	m_tree_build_rate(tree_build_rate),
+	m_tree_outdated(true)
 {
 }
 
@@ -50,10 +51,11 @@ void nbody_engine_simple_bh::space_subdivided_fcompute(T& tree, const nbcoord_t&
 
 	const nbcoord_t*	mass = reinterpret_cast<const nbcoord_t*>(m_mass->data());
 
-	if(m_tree_build_rate == 0 || tree.is_empty() ||
+	if(m_tree_build_rate == 0 || m_tree_outdated || tree.is_empty() ||
 	   (m_data->get_step() % m_tree_build_rate) == 0)
 	{
 		tree.build(count, rx, ry, rz, mass, m_distance_to_node_radius_ratio);
+		m_tree_outdated = false;
 	}
 	else
 	{
@@ -126,6 +128,12 @@ e_tree_layout tree_layout_from_str(const QString& name)
 	return etl_unknown;
 }
 
+bool nbody_engine_simple_bh::init(nbody_data* data)
+{
+	m_tree_outdated = true;
+	return nbody_engine_openmp::init(data);
+}
+
 void nbody_engine_simple_bh::print_info() const
 {
 	nbody_engine_openmp::print_info();
diff --git a/nbody/nbody_engine_simple_bh.h b/nbody/nbody_engine_simple_bh.h
index 0e0759a..6d829b3 100644
--- a/nbody/nbody_engine_simple_bh.h
+++ b/nbody/nbody_engine_simple_bh.h
@@ -33,11 +33,13 @@ private:
 	e_traverse_type		m_traverse_type;
 	e_tree_layout		m_tree_layout;
 	size_t				m_tree_build_rate;
+	bool				m_tree_outdated;
 protected:
 	nbody_engine_simple_bh(nbcoord_t distance_to_node_radius_ratio,
 						   e_traverse_type tt, size_t tree_build_rate,
 						   e_tree_layout tl);
 public:
+	bool init(nbody_data* data) override;
 	void print_info() const override;
 protected:
 	template<class T>
-- 
2.43.0


From 12ec0e77bfc1e98fe47b880cdc640fb265f31d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 41/54] fix: simulating an empty data set crashes the tree
 engines and is reported as success by the others

---
 nbody/nbody_engine_simple.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_engine_simple.cpp b/nbody/nbody_engine_simple.cpp
index 19497b3..0b8daf8 100644
--- a/nbody/nbody_engine_simple.cpp
+++ b/nbody/nbody_engine_simple.cpp
@@ -22,6 +22,11 @@ const char* nbody_engine_simple::type_name() const
 
 bool nbody_engine_simple::init(nbody_data* data)
 {
+	if(data->get_count() == 0)
+	{
+		qDebug() << "There are no bodies to simulate";
+		return false;
+	}
 	free_buffer(m_mass);
 	free_buffer(m_y);
 	m_data = data;
-- 
2.43.0


From bdfebfb85b0736fa245eac7e0ddcc5acf62aaf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 42/54] fix: making a universe in a box of invalid size never
 ends or yields bodies without position

---
 nbody/nbody_data.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index ff2159a..0323d26 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -326,6 +326,13 @@ void nbody_data::make_universe(size_t star_count, nbcoord_t sx, nbcoord_t sy, nb
 {
 	clear();
 
+	const nbcoord_t	max_size = static_cast<nbcoord_t>(std::numeric_limits<size_t>::max());
+	if(!(sx > 0 && sx < max_size && sy > 0 && sy < max_size && sz > 0 && sz < max_size))
+	{
+		qDebug() << "Invalid universe size" << sx << sy << sz;
+		return;
+	}
+
 	nbcoord_t	radius = sx * 0.5;
 	nbcoord_t	galaxy_mass = 1000;
 	nbvertex_t	center(sx * 0.5, sy * 0.5, sz * 0.5);
-- 
2.43.0


From 5be7ecbaff3c493711b28669bc637192a7d15ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:22 +0000
Subject: [PATCH 43/54] fix: changing recursion limit or correction of an
 embedded solver after a step uses missing buffers

---
 nbody/nbody_solver_rk_butcher.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/nbody/nbody_solver_rk_butcher.cpp b/nbody/nbody_solver_rk_butcher.cpp
index d1e8681..8ba894c 100644
--- a/nbody/nbody_solver_rk_butcher.cpp
+++ b/nbody/nbody_solver_rk_butcher.cpp
@@ -185,14 +185,14 @@ void nbody_solver_rk_butcher::sub_step(size_t substeps_count, nbcoord_t t, nbcoo
 		m_k = engine()->create_buffers(sizeof(nbcoord_t) * ps, steps);
 		m_t = engine()->create_buffer(sizeof(nbcoord_t) * ps);
 		m_tmpk = engine()->create_buffer(sizeof(nbcoord_t) * ps);
-		m_y_stack = engine()->create_buffers(sizeof(nbcoord_t) * ps, m_max_recursion);
-		if(m_correction)
-		{
-			m_ycorr_data = engine()->create_buffer(sizeof(nbcoord_t) * ps);
-			m_tcorr_data = engine()->create_buffer(sizeof(nbcoord_t) * ps);
-			engine()->fill_buffer(m_ycorr_data, 0);
-			engine()->fill_buffer(m_tcorr_data, 0);
-		}
+	}
+	//Correction may be enabled after the first step
+	if(m_correction && m_ycorr_data == nullptr)
+	{
+		m_ycorr_data = engine()->create_buffer(sizeof(nbcoord_t) * ps);
+		m_tcorr_data = engine()->create_buffer(sizeof(nbcoord_t) * ps);
+		engine()->fill_buffer(m_ycorr_data, 0);
+		engine()->fill_buffer(m_tcorr_data, 0);
 	}
 
 	m_need_first_approach_k = false;
@@ -229,6 +229,10 @@ void nbody_solver_rk_butcher::sub_step(size_t substeps_count, nbcoord_t t, nbcoo
 
 //			qDebug() << QString( "-" ).repeated(recursion_level) << "sub_step #" << sub_n << "ERR" << max_error << "Down to dt" << new_dt;
 
+			if(recursion_level >= m_y_stack.size())
+			{
+				m_y_stack.push_back(engine()->create_buffer(sizeof(nbcoord_t) * ps));
+			}
 			nbody_engine::memory*	curr_y = m_y_stack[recursion_level];
 			engine()->copy_buffer(curr_y, y);
 			sub_step(m_substep_subdivisions, t, new_dt, curr_y, recursion_level + 1);
-- 
2.43.0


From 3d8aaed6ed1683e2f00d500f199ec972642e821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:06 +0000
Subject: [PATCH 44/54] fix: OpenCL tree refresh fails or skips nodes when the
 body count is no power of two

---
 nbody/nbody_engine_opencl.cl  |  6 +++---
 nbody/nbody_engine_opencl.cpp | 20 +++++++++++++++-----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/nbody/nbody_engine_opencl.cl b/nbody/nbody_engine_opencl.cl
index 41bc35f..e13cada 100644
--- a/nbody/nbody_engine_opencl.cl
+++ b/nbody/nbody_engine_opencl.cl
@@ -453,7 +453,7 @@ __kernel void UpdateLeafBH(int points_count,
 }
 
 // Update node coordinates (Barnes-Hut engine)
-__kernel void UpdateNodeBH(int level_size,
+__kernel void UpdateNodeBH(int level_begin, int level_end,
 						   __global nbcoord_t* tree_cmx,
 						   __global nbcoord_t* tree_cmy,
 						   __global nbcoord_t* tree_cmz,
@@ -467,8 +467,8 @@ __kernel void UpdateNodeBH(int level_size,
 						   __global nbcoord_t* tree_crit_r2,
 						   nbcoord_t distance_to_node_radius_ratio_sqr)
 {
-	int		idx = get_global_id(0) + level_size;
-	if(idx >= 2 * level_size)
+	int		idx = get_global_id(0) + level_begin;
+	if(idx >= level_end)
 	{
 		return;
 	}
diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 0cc46c1..94ce71a 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -107,7 +107,7 @@ typedef cl::make_kernel< cl_int, // Points count
 		cl::Buffer	//body indites
 		> UpdateLeafBH;
 
-typedef cl::make_kernel< cl_int, // Level size
+typedef cl::make_kernel< cl_int, cl_int, // Level begin, level end
 		cl::Buffer, cl::Buffer, cl::Buffer,	// mass center [x, y, z]
 		cl::Buffer, cl::Buffer, cl::Buffer,	// tree leaf box min [x, y, z]
 		cl::Buffer, cl::Buffer, cl::Buffer,	// tree leaf box max [x, y, z]
@@ -330,6 +330,11 @@ bool is_power_of_two(size_t val)
 {
 	return (val > 0) && ((val & (val - 1)) == 0);
 }
+
+size_t round_up(size_t val, size_t step)
+{
+	return step * ((val + step - 1) / step);
+}
 } //namespace
 
 
@@ -1046,20 +1051,25 @@ void nbody_engine_opencl::data::update_tree(
 		}
 		cl::Event::waitForEvents(events);
 	}
-	for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+	size_t	level_begin = NBODY_HEAP_ROOT_INDEX;
+	while(level_begin * 2 < data_size)
+	{
+		level_begin *= 2;
+	}
+	// Inner nodes are [NBODY_HEAP_ROOT_INDEX, data_size), update them level by level from bottom to root
+	for(size_t level_end = data_size; level_begin > 0; level_end = level_begin, level_begin /= 2)
 	{
 		std::vector<cl::Event>	events;
 
 		nbcoord_t distance_to_node_radius_ratio_sqr
 			= distance_to_node_radius_ratio * distance_to_node_radius_ratio;
-		size_t		level_size = level_count / 2;
-		cl::NDRange	level_range(std::max(level_size, local_range[0]));
+		cl::NDRange	level_range(round_up(std::max<size_t>(level_end - level_begin, 1), local_range[0]));
 		for(size_t dev_n = 0; dev_n != device_count; ++dev_n)
 		{
 			data::devctx&	ctx(m_devices[dev_n]);
 			cl::EnqueueArgs	eargs(ctx.m_queue, level_range, local_range);
 			cl::Event		ev(
-				ctx.m_update_node_hbh(eargs, level_size,
+				ctx.m_update_node_hbh(eargs, level_begin, level_end,
 									  m_tree_cmx->buffer(dev_n),
 									  m_tree_cmy->buffer(dev_n),
 									  m_tree_cmz->buffer(dev_n),
-- 
2.43.0


From 61c2fc7c43e7d96ae3827e04f6126bb89a8ec880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:06 +0000
Subject: [PATCH 45/54] fix: OpenCL fmaxabs fails unless the number of blocks
 is a multiple of four

---
 nbody/nbody_engine_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 94ce71a..38eed1d 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -1490,8 +1490,8 @@ void nbody_engine_opencl::fmaxabs(const memory* _a, nbcoord_t& result)
 	size_t					device_count(d->m_devices.size());
 	size_t					device_data_size = problem_size() / device_count;
 	size_t					rdevice_data_size = rsize / device_count;
-	cl::NDRange				global_range(rsize);
 	cl::NDRange				local_range(4);
+	cl::NDRange				global_range(round_up(rsize, local_range[0]));
 	std::vector<cl::Event>	events;
 	smemory					out(sizeof(nbcoord_t)*rsize, d->m_devices);
 
-- 
2.43.0


From 9970cf9f3706dabdc5f6696b763ef39e0403147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:06 +0000
Subject: [PATCH 46/54] fix: OpenCL engine accepts body counts it can not
 compute and fails later with an exception

---
 nbody/nbody_engine_opencl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 38eed1d..d23ce17 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -550,6 +550,12 @@ bool nbody_engine_opencl::init(nbody_data* body_data)
 		qDebug() << "No OpenCL device available";
 		return false;
 	}
+	size_t	granularity = d->m_devices.size() * d->m_block_size;
+	if(body_data->get_count() == 0 || body_data->get_count() % granularity != 0)
+	{
+		qDebug() << "Bodies count must be a positive multiple of" << granularity;
+		return false;
+	}
 	d->m_data = body_data;
 	d->m_mass = dynamic_cast<smemory*>(create_buffer(sizeof(nbcoord_t) * d->m_data->get_count()));
 	d->m_y = dynamic_cast<smemory*>(create_buffer(sizeof(nbcoord_t) * problem_size()));
-- 
2.43.0


From fb45dea8dbb6f2f76cc47b09d6c995fff4bc707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:24 +0000
Subject: [PATCH 47/54] fix: initializing an OpenCL engine again leaks its
 buffers and uses a tree of the old size

---
 nbody/nbody_engine_opencl.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index d23ce17..5ebdeeb 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -173,6 +173,7 @@ struct nbody_engine_opencl::data
 
 	data();
 	~data();
+	void free_buffers();
 	void print_platforms_info(std::vector<cl::Platform>& platforms);
 	bool select_devices(const QStringList& platform_devices_list,
 						bool verbose,
@@ -308,21 +309,21 @@ nbody_engine_opencl::data::data() :
 
 nbody_engine_opencl::data::~data()
 {
-	delete m_mass;
-	delete m_y;
-	delete m_f_sync;
-	delete m_tree_cmx;
-	delete m_tree_cmy;
-	delete m_tree_cmz;
-	delete m_bmin_cmx;
-	delete m_bmin_cmy;
-	delete m_bmin_cmz;
-	delete m_bmax_cmx;
-	delete m_bmax_cmy;
-	delete m_bmax_cmz;
-	delete m_tree_mass;
-	delete m_tree_r2;
-	delete m_indites;
+	free_buffers();
+}
+
+void nbody_engine_opencl::data::free_buffers()
+{
+	for(smemory** m : {&m_mass, &m_y, &m_f_sync,
+					   &m_tree_cmx, &m_tree_cmy, &m_tree_cmz,
+					   &m_bmin_cmx, &m_bmin_cmy, &m_bmin_cmz,
+					   &m_bmax_cmx, &m_bmax_cmy, &m_bmax_cmz,
+					   &m_tree_mass, &m_tree_r2, &m_indites
+					  })
+	{
+		delete *m;
+		*m = NULL;
+	}
 }
 
 namespace {
@@ -556,6 +557,7 @@ bool nbody_engine_opencl::init(nbody_data* body_data)
 		qDebug() << "Bodies count must be a positive multiple of" << granularity;
 		return false;
 	}
+	d->free_buffers();
 	d->m_data = body_data;
 	d->m_mass = dynamic_cast<smemory*>(create_buffer(sizeof(nbcoord_t) * d->m_data->get_count()));
 	d->m_y = dynamic_cast<smemory*>(create_buffer(sizeof(nbcoord_t) * problem_size()));
-- 
2.43.0


From 4262a9785363f98cb6b3cd0cf876157c96322d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:24 +0000
Subject: [PATCH 48/54] fix: building a heap tree again for another body count
 keeps old radii at its leaves and drops bodies

---
 nbody/nbody_space_heap.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_space_heap.cpp b/nbody/nbody_space_heap.cpp
index 66db630..f14d9f5 100644
--- a/nbody/nbody_space_heap.cpp
+++ b/nbody/nbody_space_heap.cpp
@@ -157,6 +157,7 @@ void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* r
 	{
 		m_mass_center[idx] = nbvertex_t(rx[*indites], ry[*indites], rz[*indites]);
 		m_mass[idx] = mass[*indites];
+		m_radius_sqr[idx] = 0;
 		m_body_n[idx] = *indites;
 		m_box_min[idx] = m_mass_center[idx];
 		m_box_max[idx] = m_mass_center[idx];
-- 
2.43.0


From c2482fe92f8bb3579af4a268e3b97cc9334e6c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:24 +0000
Subject: [PATCH 49/54] fix: copying an OpenCL buffer to itself throws an
 exception

---
 nbody/nbody_engine_opencl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 5ebdeeb..600347b 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -1300,6 +1300,10 @@ void nbody_engine_opencl::copy_buffer(memory* _a, const memory* _b)
 		return;
 	}
 
+	if(a == b)
+	{
+		return;
+	}
 	if(d->is_all_in_same_context())
 	{
 		std::vector<cl::Event>	events;
-- 
2.43.0


From e4dfd0f31ddc0878006ace421026ef860378d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:54 +0000
Subject: [PATCH 50/54] fix: colour of fast bodies is read past the end of the
 colour table

---
 player/wgt_nbody_view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/player/wgt_nbody_view.cpp b/player/wgt_nbody_view.cpp
index e2da9e5..e5edfe4 100644
--- a/player/wgt_nbody_view.cpp
+++ b/player/wgt_nbody_view.cpp
@@ -142,7 +142,7 @@ static nbcolor_t get_color(nbcoord_t x)
 	{
 		return lut[lut_len - 1];
 	}
-	x *= lut_len;
+	x *= lut_len - 1;
 
 	size_t		i = static_cast<size_t>(ceil(x));
 	nbcoord_t	w = i - x;
-- 
2.43.0


From 9ec0138f20dc936bf4766d11b7e074eebf07192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:29 +0000
Subject: [PATCH 51/54] fix: video frames whose row length is no multiple of
 four bytes are skewed

---
 player/nbody_frame_compressor_opencv.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/player/nbody_frame_compressor_opencv.cpp b/player/nbody_frame_compressor_opencv.cpp
index ab43ba1..116816c 100644
--- a/player/nbody_frame_compressor_opencv.cpp
+++ b/player/nbody_frame_compressor_opencv.cpp
@@ -42,7 +42,8 @@ void nbody_frame_compressor_opencv::push_frame(const QImage& frame, size_t)
 	}
 
 	QImage			rgb(frame.convertToFormat(QImage::Format_RGB888).rgbSwapped());
-	const cv::Mat	img(size, CV_8UC3, const_cast<uchar*>(rgb.bits()));
+	const cv::Mat	img(size, CV_8UC3, const_cast<uchar*>(rgb.bits()),
+						static_cast<size_t>(rgb.bytesPerLine()));
 
 	d->m_writer.write(img);
 }
-- 
2.43.0


From a1841b28dd727d129d6ce1b1648e13f2e797d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:29 +0000
Subject: [PATCH 52/54] fix: video recorder keeps writing to the old file after
 its destination was changed

---
 player/nbody_frame_compressor_opencv.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/player/nbody_frame_compressor_opencv.cpp b/player/nbody_frame_compressor_opencv.cpp
index 116816c..a0e7d46 100644
--- a/player/nbody_frame_compressor_opencv.cpp
+++ b/player/nbody_frame_compressor_opencv.cpp
@@ -22,6 +22,7 @@ nbody_frame_compressor_opencv::~nbody_frame_compressor_opencv()
 
 bool nbody_frame_compressor_opencv::set_destination(const QString& fn)
 {
+	d->m_writer.release();
 	d->m_dst_file = fn;
 	return true;
 }
-- 
2.43.0


From 39de3b3f3c7174f6fa912deb45cd9d37f0d2283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:29 +0000
Subject: [PATCH 53/54] fix: image recorder loses frames when the destination
 path contains a percent sign and a digit

---
 player/nbody_frame_compressor_image.cpp | 4 +---
 player/nbody_frame_compressor_image.h   | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/player/nbody_frame_compressor_image.cpp b/player/nbody_frame_compressor_image.cpp
index a475447..2fc8492 100644
--- a/player/nbody_frame_compressor_image.cpp
+++ b/player/nbody_frame_compressor_image.cpp
@@ -22,8 +22,6 @@ bool nbody_frame_compressor_image::set_destination(const QString& d)
 
 	m_destination = d;
 
-	m_name_tmpl = d + "/%1.png";
-
 	return true;
 }
 
@@ -34,7 +32,7 @@ static bool frame_writer(const QImage& img, const QString& fname)
 
 void nbody_frame_compressor_image::push_frame(const QImage& frame, size_t frame_n)
 {
-	QString		frame_name(m_name_tmpl.arg(frame_n, 8, 10,  QChar('0')));
+	QString		frame_name(m_destination + QString("/%1.png").arg(frame_n, 8, 10,  QChar('0')));
 
 	m_results << QtConcurrent::run(frame_writer, frame, frame_name);
 
diff --git a/player/nbody_frame_compressor_image.h b/player/nbody_frame_compressor_image.h
index 846618d..36326c1 100644
--- a/player/nbody_frame_compressor_image.h
+++ b/player/nbody_frame_compressor_image.h
@@ -9,7 +9,6 @@
 class nbody_frame_compressor_image : public nbody_frame_compressor
 {
 	QString					m_destination;
-	QString					m_name_tmpl;
 	QList< QFuture<bool> >	m_results;
 public:
 	nbody_frame_compressor_image();
-- 
2.43.0


From 162da691c4ab4c4bc769cd5b3cbb6b6a70321a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:29 +0000
Subject: [PATCH 54/54] fix: image recorder swallows failures to store a frame

---
 player/nbody_frame_compressor_image.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/player/nbody_frame_compressor_image.cpp b/player/nbody_frame_compressor_image.cpp
index 2fc8492..b038d21 100644
--- a/player/nbody_frame_compressor_image.cpp
+++ b/player/nbody_frame_compressor_image.cpp
@@ -1,6 +1,7 @@
 #include "nbody_frame_compressor_image.h"
 
 #include <QDir>
+#include <QFile>
 #include <QDebug>
 
 nbody_frame_compressor_image::nbody_frame_compressor_image()
@@ -27,7 +28,13 @@ bool nbody_frame_compressor_image::set_destination(const QString& d)
 
 static bool frame_writer(const QImage& img, const QString& fname)
 {
-	return img.save(fname, "PNG");
+	QFile	file(fname);
+	if(!file.open(QFile::WriteOnly) || !img.save(&file, "PNG") || !file.flush())
+	{
+		qDebug() << "Can't save frame" << fname << file.errorString();
+		return false;
+	}
+	return true;
 }
 
 void nbody_frame_compressor_image::push_frame(const QImage& frame, size_t frame_n)
-- 
2.43.0

