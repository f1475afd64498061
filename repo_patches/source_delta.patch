From 92774f07ce638f520ae498e5c07cba7ff5bf94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 01/63] fix: nuribou: measure a strip only along its own cells

---
 solver/nuribou.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/nuribou.py b/solver/nuribou.py
index fa32d79..dfa914a 100644
--- a/solver/nuribou.py
+++ b/solver/nuribou.py
@@ -23,8 +23,8 @@ def noribou_strip_different(color: str = "black") -> str:
     rule += f":- {color}(R, C), nth(R, C, N1), nth(R, C, N2), N1 < N2.\n"
 
     rule += "len_strip(R, C, 1) :- upleft(R, C), not up(R, C + 1), not left(R + 1, C).\n"
-    rule += f"len_strip(R, C, N) :- upleft(R, C), up(R, C + 1), {color}(R, C + N - 1), not {color}(R, C + N), nth(R, C + N - 1, N).\n"
-    rule += f"len_strip(R, C, N) :- upleft(R, C), left(R + 1, C), {color}(R + N - 1, C), not {color}(R + N, C), nth(R + N - 1, C, N).\n"
+    rule += f"len_strip(R, C, N) :- upleft(R, C), up(R, C + 1), up(R, C + N - 1), {color}(R, C + N - 1), not {color}(R, C + N), nth(R, C + N - 1, N).\n"
+    rule += f"len_strip(R, C, N) :- upleft(R, C), left(R + 1, C), left(R + N - 1, C), {color}(R + N - 1, C), not {color}(R + N, C), nth(R + N - 1, C, N).\n"
     rule += f":- {color}(R, C), len_strip(R, C, L), len_strip(R, C, L1), L < L1.\n"
     rule += "len_strip(R, C, L) :- up(R, C), nth(R, C, N), len_strip(R, C - N + 1, L).\n"
     rule += "len_strip(R, C, L) :- left(R, C), nth(R, C, N), len_strip(R - N + 1, C, L).\n"
-- 
2.43.0


From 183fa293d4393173c4bcf38b8052d5248173145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 02/63] fix: aquapelago: cells holding a clue are shaded

---
 solver/aquapelago.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/aquapelago.py b/solver/aquapelago.py
index f3d2458..08412b8 100644
--- a/solver/aquapelago.py
+++ b/solver/aquapelago.py
@@ -34,6 +34,7 @@ class AquapelagoSolver(Solver):
         for (r, c, d, tp), num in puzzle.text.items():
             validate_direction(r, c, d)
             validate_type(tp, "normal")
+            self.add_program_line(f"black({r}, {c}).")
             if isinstance(num, int):
                 self.add_program_line(grid_src_color_connected((r, c), color="black", adj_type="x"))
                 self.add_program_line(count_reachable_src(num, (r, c), color="black", adj_type="x"))
-- 
2.43.0


From 0d81186a9cb74e3e2f3882253831493475221819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 03/63] fix: nagare: accept a wind arrow at the border pointing
 outwards

---
 solver/nagare.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solver/nagare.py b/solver/nagare.py
index 4acdd0d..81a7264 100644
--- a/solver/nagare.py
+++ b/solver/nagare.py
@@ -16,6 +16,8 @@ def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
     """Generate a constraint for the wind direction."""
     if d in ("l", "r"):
         cols = range(0, c) if d == "l" else range(puzzle.col - 1, c, -1)
+        if len(cols) == 0:  # the wind leaves the grid at once
+            return ""
 
         c1, c2 = cols[0], cols[-1]
         for c_ in cols:
@@ -29,6 +31,8 @@ def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
 
     if d in ("u", "d"):
         rows = range(0, r) if d == "u" else range(puzzle.row - 1, r, -1)
+        if len(rows) == 0:  # the wind leaves the grid at once
+            return ""
 
         r1, r2 = rows[0], rows[-1]
         for r_ in rows:
-- 
2.43.0


From 5f8c9179472ee75c6367df66b0f426209f381014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 04/63] fix: nagare: only shaded cells stop the wind

---
 solver/nagare.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/solver/nagare.py b/solver/nagare.py
index 81a7264..834db28 100644
--- a/solver/nagare.py
+++ b/solver/nagare.py
@@ -12,6 +12,12 @@ dict_dir = {"1": "l", "3": "u", "5": "r", "7": "d"}
 rev_direction = {"l": "r", "r": "l", "u": "d", "d": "u"}
 
 
+def is_shaded(r: int, c: int, puzzle: Puzzle) -> bool:
+    """Check if a cell is shaded (a wind arrow or a colored cell), arrows on the loop do not stop the wind."""
+    symbol_name = puzzle.symbol.get(Point(r, c, Direction.CENTER), "")
+    return symbol_name.startswith("arrow_B_W") or Point(r, c) in puzzle.surface
+
+
 def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
     """Generate a constraint for the wind direction."""
     if d in ("l", "r"):
@@ -21,7 +27,7 @@ def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
 
         c1, c2 = cols[0], cols[-1]
         for c_ in cols:
-            if puzzle.symbol.get(Point(r, c_, Direction.CENTER)) or puzzle.surface.get(Point(r, c_)):
+            if is_shaded(r, c_, puzzle):
                 c1 = c_ + cols.step
         if d == "r":
             c1, c2 = c2, c1
@@ -36,7 +42,7 @@ def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
 
         r1, r2 = rows[0], rows[-1]
         for r_ in rows:
-            if puzzle.symbol.get(Point(r_, c, Direction.CENTER)) or puzzle.surface.get(Point(r_, c)):
+            if is_shaded(r_, c, puzzle):
                 r1 = r_ + rows.step
         if d == "d":
             r1, r2 = r2, r1
-- 
2.43.0


From 4c3fea363627c3bdf135ee75d4ea0835f204fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 05/63] fix: country: a drawn outer frame is no border between
 rooms

---
 solver/country.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/country.py b/solver/country.py
index ff4e64a..0db3f96 100644
--- a/solver/country.py
+++ b/solver/country.py
@@ -48,10 +48,10 @@ class CountrySolver(Solver):
                     self.add_program_line(count(num, color="country_road", _type="area", _id=i))
 
         for (r, c, d, _), draw in puzzle.edge.items():
-            if d == Direction.TOP and r > 0 and draw:
+            if d == Direction.TOP and 0 < r < puzzle.row and draw:
                 self.add_program_line(f":- not country_road({r}, {c}), not country_road({r - 1}, {c}).")
 
-            if d == Direction.LEFT and c > 0 and draw:
+            if d == Direction.LEFT and 0 < c < puzzle.col and draw:
                 self.add_program_line(f":- not country_road({r}, {c}), not country_road({r}, {c - 1}).")
 
         for (r, c, _, d), draw in puzzle.line.items():
-- 
2.43.0


From 13bf570e48120a1521f60a0562c63aeea6955c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 06/63] fix: myopia: four arrows need a loop segment in sight

---
 solver/myopia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/myopia.py b/solver/myopia.py
index f8bac48..43fe329 100644
--- a/solver/myopia.py
+++ b/solver/myopia.py
@@ -29,7 +29,7 @@ def opia_constraint(r: int, c: int, mask: List[bool], lmt: int) -> str:
     right += f"right({r}, {c}, {lmt}) :- Mr = #min {{ C: grid({r}, C), edge_left({r}, C + 1), C >= {c} }}, not grid(_, Mr).\n"
 
     rule = top + bottom + left + right
-    rule += f"opia({r}, {c}) :- top({r}, {c}, N1), bottom({r}, {c}, N2), left({r}, {c}, N3), right({r}, {c}, N4), {cmp}.\n"
+    rule += f"opia({r}, {c}) :- top({r}, {c}, N1), bottom({r}, {c}, N2), left({r}, {c}, N3), right({r}, {c}, N4), {cmp}, N < {lmt}.\n"
     rule += f":- not opia({r}, {c}).\n"
     return rule.strip()
 
-- 
2.43.0


From df5a7f073eb334941f7f5566f3fa4d84b02796a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 07/63] fix: firefly: a beam straight into the next firefly has
 no bends

---
 solver/firefly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/firefly.py b/solver/firefly.py
index ba23ec5..db01c30 100644
--- a/solver/firefly.py
+++ b/solver/firefly.py
@@ -18,7 +18,7 @@ def restrict_num_bend(r: int, c: int, num: int, color: str) -> str:
 
     A grid_in/grid_out rule should be defined first.
     """
-    rule = f"reachable({r}, {c}, {r}, {c}).\n"
+    rule = f"reachable({r}, {c}, {r}, {c}) :- {color}({r}, {c}).\n"
     rule += f"reachable({r}, {c}, R, C) :- {color}(R, C), grid(R1, C1), reachable({r}, {c}, R1, C1), adj_loop_directed(R1, C1, R, C).\n"
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "l"), not grid_out(R, C, "r").\n'
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "u"), not grid_out(R, C, "d").\n'
-- 
2.43.0


From 18c62c5f5b3caa754da03a77132cfa7a1a4c7254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 08/63] fix: firefly: beams form one figure even when no clue
 has a number

---
 solver/firefly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/firefly.py b/solver/firefly.py
index db01c30..b8a75b4 100644
--- a/solver/firefly.py
+++ b/solver/firefly.py
@@ -24,10 +24,8 @@ def restrict_num_bend(r: int, c: int, num: int, color: str) -> str:
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "u"), not grid_out(R, C, "d").\n'
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "r"), not grid_out(R, C, "l").\n'
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "d"), not grid_out(R, C, "u").\n'
-    rule += f":- #count{{ R, C: grid(R, C), reachable({r}, {c}, R, C), bend(R, C) }} != {num}.\n"
+    rule += f":- #count{{ R, C: grid(R, C), reachable({r}, {c}, R, C), bend(R, C) }} != {num}."
 
-    rule += "firefly_all(R, C) :- firefly(R, C).\n"
-    rule += "firefly_all(R, C) :- dead_end(R, C).\n"
     return rule
 
 
@@ -54,6 +52,8 @@ class FireflySolver(Solver):
         self.add_program_line(fill_path(color="firefly", directed=True))
         self.add_program_line(adjacent(_type="loop_directed"))
         self.add_program_line(directed_loop(color="firefly"))
+        self.add_program_line("firefly_all(R, C) :- firefly(R, C).")
+        self.add_program_line("firefly_all(R, C) :- dead_end(R, C).")
         self.add_program_line(grid_color_connected(color="firefly_all", adj_type="loop_directed"))
         self.add_program_line(convert_direction_to_edge(directed=True))
 
-- 
2.43.0


From e8b110b05d5531a8daae0d383632c8f24d200961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 09/63] fix: tapa, tapaloop: do not list the patterns again
 with every puzzle solved

---
 solver/tapa.py     | 7 +++----
 solver/tapaloop.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/solver/tapa.py b/solver/tapa.py
index 08c8742..87fb07a 100644
--- a/solver/tapa.py
+++ b/solver/tapa.py
@@ -41,15 +41,14 @@ def parse_pattern(pattern: str) -> Tuple[int, ...]:
 
 def tapa_pattern_rule() -> str:
     """Generate pattern reference dictionary and tapa pattern map."""
+    patterns: Dict[Tuple[int, ...], List[int]] = {}
     for i in range(256):
         pat = bin(i)[2:].zfill(8)
         parsed = parse_pattern(pat)
 
-        if pattern_ref.get(parsed):
-            pattern_ref[parsed].append(i)
-        else:
-            pattern_ref[parsed] = [i]
+        patterns.setdefault(parsed, []).append(i)
 
+    pattern_ref.update(patterns)
     rule = ""
     for i, (pat, vals) in enumerate(pattern_ref.items()):
         pattern_idx[pat] = i
diff --git a/solver/tapaloop.py b/solver/tapaloop.py
index 2d57557..101d375 100644
--- a/solver/tapaloop.py
+++ b/solver/tapaloop.py
@@ -75,6 +75,7 @@ def parse_shape_clue(inner: Tuple[int, ...], outer: Tuple[int, ...]) -> Optional
 
 def tapaloop_pattern_rule() -> str:
     """Generate pattern reference dictionary and tapaloop pattern map."""
+    patterns: Dict[Tuple[int, ...], List[int]] = {}
     for i in range(4096):
         pat = bin(i)[2:].zfill(12)
         inner = tuple(map(int, pat[:8]))
@@ -84,11 +85,9 @@ def tapaloop_pattern_rule() -> str:
         if not parsed:
             continue
 
-        if pattern_ref.get(parsed):
-            pattern_ref[parsed].append(i)
-        else:
-            pattern_ref[parsed] = [i]
+        patterns.setdefault(parsed, []).append(i)
 
+    pattern_ref.update(patterns)
     rule = ""
     for i, (pat, vals) in enumerate(pattern_ref.items()):
         pattern_idx[pat] = i
-- 
2.43.0


From f21ac86e14957c3e91d3f9ff11ad8f21502bcced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 10/63] fix: clingo: keep the equivalence pass off, which loses
 answers of some boards

With asp.eq = 1 clasp drops answers (or reports none) for some boards with
reachability rules, for example small nurikabe and nuribou boards; the same
programs give all answers with the pass off, and no solver gets slower.
---
 noqx/clingo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noqx/clingo.py b/noqx/clingo.py
index 1ed75f5..c2ec6c9 100644
--- a/noqx/clingo.py
+++ b/noqx/clingo.py
@@ -43,7 +43,7 @@ class ClingoSolver:
         """Solve the problem."""
         self.clingo_instance.configuration.sat_prepro = 2
         self.clingo_instance.configuration.asp.trans_ext = "dynamic"  # type: ignore
-        self.clingo_instance.configuration.asp.eq = 1  # type: ignore
+        self.clingo_instance.configuration.asp.eq = 0  # type: ignore
         self.clingo_instance.configuration.solve.parallel_mode = Config.parallel_threads  # type: ignore
         self.clingo_instance.configuration.solve.models = Config.max_solutions_to_find  # type: ignore
         self.clingo_instance.add(program=program)
-- 
2.43.0


From 32c7ea8536e0d7410ba13f523342d81124919d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 11/63] fix: numlin: no closed loops without a clue

avoid_unknown_src_bit only asked for some bit to be set, and the bits of a loop
that meets no clue can be set freely. Start from the clue cells instead.
---
 noqx/rule/reachable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/noqx/rule/reachable.py b/noqx/rule/reachable.py
index 5a5435c..f4abac1 100644
--- a/noqx/rule/reachable.py
+++ b/noqx/rule/reachable.py
@@ -233,8 +233,11 @@ def avoid_unknown_src_bit(color: str = "black", adj_type: Union[int, str] = 4) -
 
     Use this constraint with grid_bit_color_connected, and adj_type cannot be "edge".
     """
-    tag = tag_encode("reachable", "grid", "bit", "adj", adj_type)
-    return f":- grid(R, C), {color}(R, C), not {tag}(R, C, _)."
+    tag = tag_encode("reachable", "grid", "bit", "src", "adj", adj_type)
+    initial = f"{tag}(R, C) :- clue(R, C)."
+    propagation = f"{tag}(R, C) :- {tag}(R1, C1), grid(R, C), {color}(R, C), adj_{adj_type}(R, C, R1, C1)."
+    constraint = f":- grid(R, C), {color}(R, C), not {tag}(R, C)."
+    return initial + "\n" + propagation + "\n" + constraint
 
 
 def grid_branch_color_connected(color: Optional[str] = "black", adj_type: Union[int, str] = 4) -> str:
-- 
2.43.0


From 30f556e8bd4685cb45bad41b6a35d920d95c5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 12/63] fix: nagare: do not return a loop twice, once for each
 direction

The direction of travel is not drawn. Enumerate what is shown, not every model,
so that no two answers show the same filling.
---
 noqx/clingo.py   | 1 +
 solver/nagare.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/noqx/clingo.py b/noqx/clingo.py
index c2ec6c9..757fbf9 100644
--- a/noqx/clingo.py
+++ b/noqx/clingo.py
@@ -46,6 +46,7 @@ class ClingoSolver:
         self.clingo_instance.configuration.asp.eq = 0  # type: ignore
         self.clingo_instance.configuration.solve.parallel_mode = Config.parallel_threads  # type: ignore
         self.clingo_instance.configuration.solve.models = Config.max_solutions_to_find  # type: ignore
+        self.clingo_instance.configuration.solve.project = "show"  # type: ignore
         self.clingo_instance.add(program=program)
         self.clingo_instance.ground()
         with self.clingo_instance.solve(on_model=self.store_model, async_=True) as handle:  # type: ignore
diff --git a/solver/nagare.py b/solver/nagare.py
index 834db28..701a271 100644
--- a/solver/nagare.py
+++ b/solver/nagare.py
@@ -92,7 +92,8 @@ class NagareSolver(Solver):
             fail_false(color in Color.DARK, f"Invalid color at ({r}, {c}).")
             self.add_program_line(f"not nagare({r}, {c}).")
 
-        self.add_program_line(display(item="grid_in", size=3))
-        self.add_program_line(display(item="grid_out", size=3))
+        self.add_program_line("grid_direction(R, C, D) :- grid_in(R, C, D).")
+        self.add_program_line("grid_direction(R, C, D) :- grid_out(R, C, D).")
+        self.add_program_line(display(item="grid_direction", size=3))
 
         return self.program
-- 
2.43.0


From 131069e7c142b15d2458a0809b61b8f7480cab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 13/63] fix: araf: a clue of 0 may belong to a region

---
 solver/araf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver/araf.py b/solver/araf.py
index 30d025e..15240d1 100644
--- a/solver/araf.py
+++ b/solver/araf.py
@@ -62,10 +62,13 @@ class ArafSolver(Solver):
                 validate_direction(r1, c1, d1)
                 validate_type(tp1, "normal")
                 fail_false(isinstance(num, int), f"Clue at ({r}, {c}) must be an integer.")
+                if (r, c) == (r1, c1):
+                    continue
+
                 if abs(r - r1) + abs(c - c1) >= max(int(num), int(num1)):
                     exclude.append((r1, c1))
 
-                if (r, c) != (r1, c1) and abs(int(num) - int(num1)) <= 1:
+                if abs(int(num) - int(num1)) <= 1:
                     exclude.append((r1, c1))
 
             self.add_program_line(f"clue({r}, {c}, {int(num)}).")
-- 
2.43.0


From 7dbd96b354b5fb8cec72638b9018c36dae2be181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 14/63] fix: triplace: count blocks for a rightward clue whose
 run is one cell long

---
 solver/triplace.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/solver/triplace.py b/solver/triplace.py
index 9d37267..94799b5 100644
--- a/solver/triplace.py
+++ b/solver/triplace.py
@@ -24,7 +24,7 @@ class TriplaceSolver(Solver):
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
         fail_false((puzzle.row * puzzle.col - len(puzzle.symbol)) % 3 == 0, "The grid cannot be divided into 3-ominoes!")
-        sums: List[Tuple[int, List[Tuple[int, int]]]] = []
+        sums: List[Tuple[int, List[Tuple[int, int]], str]] = []
         for (r, c, d, pos), num in puzzle.text.items():
             validate_direction(r, c, d)
             if pos == "sudoku_1" and isinstance(num, int):
@@ -35,7 +35,7 @@ class TriplaceSolver(Solver):
                     cur += 1
 
                 fail_false(len(area_points) > 0, f"Invalid kakuro clue at ({r}, {c}).")
-                sums.append((num, area_points))
+                sums.append((num, area_points, "edge_left(R, C + 1)"))
 
             if pos == "sudoku_2" and isinstance(num, int):
                 area_points: List[Tuple[int, int]] = []
@@ -45,7 +45,7 @@ class TriplaceSolver(Solver):
                     cur += 1
 
                 fail_false(len(area_points) > 0, f"Invalid kakuro clue at ({r}, {c}).")
-                sums.append((num, area_points))
+                sums.append((num, area_points, "edge_top(R + 1, C)"))
 
         self.add_program_line(defined(item="hole"))
         self.add_program_line(grid(puzzle.row, puzzle.col, with_holes=True))
@@ -68,13 +68,8 @@ class TriplaceSolver(Solver):
 
         t_be = tag_encode("belong_to_shape", "omino", 3, "grid")
         area_id = 0
-        for num, coord_list in sums:
+        for num, coord_list, edge_tag in sums:
             self.add_program_line(area(_id=area_id, src_cells=coord_list))
-
-            edge_tag = "edge_top(R + 1, C)"
-            if len(coord_list) > 1 and coord_list[0][0] == coord_list[1][0]:  # the rule is in order
-                edge_tag = "edge_left(R, C + 1)"
-
             self.add_program_line(f":- #count {{ R, C: area({area_id}, R, C), {t_be}(R, C, 0, _), {edge_tag} }} != {num}.")
             area_id += 1
 
-- 
2.43.0


From eff407d2affb80b3d466e8d1e75b6e0013fdb09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 15/63] fix: fill_num: a given number outside the range leaves
 no answer

---
 noqx/rule/common.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/noqx/rule/common.py b/noqx/rule/common.py
index 6f151dc..c5284c4 100644
--- a/noqx/rule/common.py
+++ b/noqx/rule/common.py
@@ -114,12 +114,24 @@ def fill_num(_range: Iterable[int], _type: str = "grid", _id: Union[int, str] =
     range_str = f"{';'.join(range_seq)}"
 
     if _type == "grid":
-        return f"{{ number(R, C, ({range_str})){color_part} }} = 1 :- grid(R, C)."
+        host = "grid(R, C)"
+    elif _type == "area":
+        host = f"area({_id}, R, C)"
+    else:
+        raise ValueError("Invalid type, must be one of 'grid', 'area'.")
 
-    if _type == "area":
-        return f"{{ number(R, C, ({range_str})){color_part} }} = 1 :- area({_id}, R, C)."
+    rule = f"{{ number(R, C, ({range_str})){color_part} }} = 1 :- {host}."
+
+    # a number given in advance has to be in the range, too
+    if not _range:
+        return rule + f"\n:- {host}, number(R, C, _)."
 
-    raise ValueError("Invalid type, must be one of 'grid', 'area'.")
+    rule += f"\n:- {host}, number(R, C, N), N < {_range[0]}.\n:- {host}, number(R, C, N), N > {_range[-1]}."
+    for low, high in zip(_range, _range[1:]):
+        if high - low > 1:
+            rule += f"\n:- {host}, number(R, C, N), N > {low}, N < {high}."
+
+    return rule
 
 
 def unique_num(color: str = "black", _type: str = "row") -> str:
-- 
2.43.0


From 0e7420d8f424558fbe70e97f9e86694df74392e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 16/63] fix: sudoku: the second diagonal of a small grid runs
 corner to corner

---
 solver/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/sudoku.py b/solver/sudoku.py
index a21eaf7..c569e9a 100644
--- a/solver/sudoku.py
+++ b/solver/sudoku.py
@@ -60,7 +60,7 @@ class SudokuSolver(Solver):
         if puzzle.param["diagonal"]:  # diagonal rule
             for i in range(n):
                 self.add_program_line(f"area({n + 1}, {i}, {i}).")
-                self.add_program_line(f"area({n + 2}, {i}, {8 - i}).")
+                self.add_program_line(f"area({n + 2}, {i}, {n - 1 - i}).")
 
         if puzzle.param["untouch"]:  # untouch rule
             self.add_program_line(avoid_num_adjacent(adj_type="x"))
-- 
2.43.0


From ec648304c45e5379c878e34e0613de269aec0dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 17/63] fix: sudoku: refuse a grid size without known boxes

---
 solver/sudoku.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/sudoku.py b/solver/sudoku.py
index c569e9a..45d0ca3 100644
--- a/solver/sudoku.py
+++ b/solver/sudoku.py
@@ -36,6 +36,7 @@ class SudokuSolver(Solver):
         fail_false(puzzle.row == puzzle.col, "This puzzle must be square.")
         n = puzzle.row
         sep = {9: (3, 3), 8: (2, 4), 6: (2, 3), 4: (2, 2)}
+        fail_false(n in sep, "The size of this puzzle must be 4, 6, 8 or 9.")
 
         self.add_program_line(grid(n, n))
         self.add_program_line(adjacent(_type="x"))
-- 
2.43.0


From 044c3779ac44a03a5f93644391c3e8f6bfcc5dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 18/63] fix: easyasabc: refuse a clue that is none of the
 letters

---
 solver/easyasabc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/easyasabc.py b/solver/easyasabc.py
index 51c8003..a25c4b7 100644
--- a/solver/easyasabc.py
+++ b/solver/easyasabc.py
@@ -37,6 +37,7 @@ class EasyAsABCSolver(Solver):
             validate_direction(r, c, d)
             validate_type(pos, "normal")
             fail_false(len(letter) == 1, f"Clue at ({r}, {c}) should be a letter.")
+            fail_false(letter in rev_letters, f"Clue at ({r}, {c}) should be one of the letters '{letters}'.")
 
             if r == -1 and 0 <= c < puzzle.col:
                 self.add_program_line(
-- 
2.43.0


From 32607156165cb1e935cec1607c89c636fc8d771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 19/63] fix: meander: the grid need not be square

---
 solver/meander.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/solver/meander.py b/solver/meander.py
index f732980..36f5dd4 100644
--- a/solver/meander.py
+++ b/solver/meander.py
@@ -38,9 +38,7 @@ class MeanderSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
-        fail_false(puzzle.row == puzzle.col, "This puzzle must be square.")
-        n = puzzle.row
-        self.add_program_line(grid(n, n))
+        self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(adjacent(_type=4))
         self.add_program_line(adjacent(_type=8))
         self.add_program_line(avoid_num_adjacent(adj_type=8))
-- 
2.43.0


From 6289b1e49140275725ab332fa868521eaa6699aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:57 +0000
Subject: [PATCH 20/63] fix: kakuro: numbers of a run without a sum differ, too

---
 solver/kakuro.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/solver/kakuro.py b/solver/kakuro.py
index a1fb293..7ef207d 100644
--- a/solver/kakuro.py
+++ b/solver/kakuro.py
@@ -1,6 +1,6 @@
 """The Kakuro solver."""
 
-from typing import List, Tuple
+from typing import List, Optional, Tuple
 
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
@@ -25,7 +25,7 @@ class KakuroSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
-        sums: List[Tuple[int, List[Tuple[int, int]]]] = []
+        sums: List[Tuple[Optional[int], List[Tuple[int, int]]]] = []
         for (r, c, d, pos), num in puzzle.text.items():
             validate_direction(r, c, d)
             if pos == "sudoku_1" and isinstance(num, int):
@@ -51,6 +51,20 @@ class KakuroSolver(Solver):
             if pos == "normal" and isinstance(num, int):
                 self.add_program_line(f"number({r}, {c}, {num}).")  # initial conditions
 
+        # the numbers in a run without a sum are different, too
+        clued_runs = [coord_list for _, coord_list in sums]
+        for line in [[(r, c) for c in range(puzzle.col)] for r in range(puzzle.row)] + [
+            [(r, c) for r in range(puzzle.row)] for c in range(puzzle.col)
+        ]:
+            run: List[Tuple[int, int]] = []
+            for r, c in line + [(-1, -1)]:
+                if (r, c) != (-1, -1) and not puzzle.symbol.get(Point(r, c, Direction.CENTER)):
+                    run.append((r, c))
+                    continue
+                if len(run) > 1 and run not in clued_runs:
+                    sums.append((None, run))
+                run = []
+
         self.add_program_line(defined(item="area", size=3))
         self.add_program_line(defined(item="number", size=3))
         self.add_program_line(grid(puzzle.row, puzzle.col))
@@ -59,7 +73,8 @@ class KakuroSolver(Solver):
         for sum_clue, coord_list in sums:
             self.add_program_line(area(_id=area_id, src_cells=coord_list))
             self.add_program_line(fill_num(_range=range(1, 10), _type="area", _id=area_id))
-            self.add_program_line(f":- #sum {{ N, R, C: area({area_id}, R, C), number(R, C, N) }} != {sum_clue}.")
+            if sum_clue is not None:
+                self.add_program_line(f":- #sum {{ N, R, C: area({area_id}, R, C), number(R, C, N) }} != {sum_clue}.")
             area_id += 1
 
         self.add_program_line(unique_num(_type="area", color="grid"))
-- 
2.43.0


From 3423a286f88ab3747a82737e7a99a908ae2c0c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 21/63] fix: starbattle: the default number of stars is
 accepted

---
 solver/starbattle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/starbattle.py b/solver/starbattle.py
index c0ec190..404ee25 100644
--- a/solver/starbattle.py
+++ b/solver/starbattle.py
@@ -26,7 +26,7 @@ class StarBattleSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
-        fail_false(puzzle.param["stars"].isdigit(), "Invalid star count.")
+        fail_false(str(puzzle.param["stars"]).isdigit(), "Invalid star count.")
         num_stars = int(puzzle.param["stars"])
         self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(shade_c(color="star__2"))
-- 
2.43.0


From 241bbce55d646fd6b0c8fa25c22cfee62f8ce438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 22/63] fix: ncells: accept the default region size, refuse a
 region size of zero

---
 solver/ncells.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/ncells.py b/solver/ncells.py
index 6a2b231..b15905c 100644
--- a/solver/ncells.py
+++ b/solver/ncells.py
@@ -33,8 +33,9 @@ class NCellsSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
-        fail_false(puzzle.param["region_size"].isdigit(), "Invalid region size.")
+        fail_false(str(puzzle.param["region_size"]).isdigit(), "Invalid region size.")
         size = int(puzzle.param["region_size"])
+        fail_false(size > 0, "Invalid region size.")
         fail_false(puzzle.row * puzzle.col % size == 0, "It's impossible to divide grid into regions of this size!")
         self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(edge(puzzle.row, puzzle.col))
-- 
2.43.0


From a8d6f59fae1344ce8df11b8eec87f471f1ef4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 23/63] fix: binairo: half of a row is half the number of
 columns

---
 solver/binairo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/binairo.py b/solver/binairo.py
index f5cac57..b46d594 100644
--- a/solver/binairo.py
+++ b/solver/binairo.py
@@ -48,8 +48,8 @@ class BinairoSolver(Solver):
         self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(shade_c(color="circle_M__1"))
         self.add_program_line(invert_c(color="circle_M__1", invert="circle_M__2"))
-        self.add_program_line(count(puzzle.row // 2, color="circle_M__1", _type="row"))
-        self.add_program_line(count(puzzle.col // 2, color="circle_M__1", _type="col"))
+        self.add_program_line(count(puzzle.col // 2, color="circle_M__1", _type="row"))
+        self.add_program_line(count(puzzle.row // 2, color="circle_M__1", _type="col"))
         self.add_program_line(unique_linecolor(colors=["circle_M__1", "circle_M__2"], _type="row"))
         self.add_program_line(unique_linecolor(colors=["circle_M__1", "circle_M__2"], _type="col"))
         self.add_program_line(avoid_rect(1, 3, color="circle_M__1"))
-- 
2.43.0


From d0b9fbadec4f49bd6170a0e4a2cb839a87d61ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 24/63] fix: battleship: the middle of a ship may lie along the
 border

---
 solver/battleship.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/battleship.py b/solver/battleship.py
index 220d55e..10b3ae1 100644
--- a/solver/battleship.py
+++ b/solver/battleship.py
@@ -43,7 +43,7 @@ class BattleshipSolver(Solver):
                 self.add_program_line(f":- grid({r}, {c - 1}), {fleet_name}({r}, {c - 1}).")
 
             if style == "2":
-                fail_false(0 < c < puzzle.col - 1 and 0 < r < puzzle.row - 1, f"Ship at ({r}, {c}) is outside of the board.")
+                fail_false(0 < c < puzzle.col - 1 or 0 < r < puzzle.row - 1, f"Ship at ({r}, {c}) is outside of the board.")
                 self.add_program_line(f":- #count {{ R, C: {fleet_name}(R, C), adj_4({r}, {c}, R, C) }} != 2.")
 
             if style == "3":
-- 
2.43.0


From 4f283b54e21745c9094661306fb950863c94855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 25/63] fix: battleship: accept a fleet of any one colour

---
 solver/battleship.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/solver/battleship.py b/solver/battleship.py
index 10b3ae1..b0e3570 100644
--- a/solver/battleship.py
+++ b/solver/battleship.py
@@ -23,11 +23,11 @@ class BattleshipSolver(Solver):
         self.reset()
         self.add_program_line(grid(puzzle.row, puzzle.col))
 
-        fleet_name = "battleship_B"  # set a default battleship fleet name
+        fleet_name = ""
         for (r, c, d, _), symbol_name in puzzle.symbol.items():
             shape, style = symbol_name.split("__")
             validate_direction(r, c, d)
-            fail_false(shape.startswith("battleship"), f"Invalid battleship shape: {shape}.")
+            fail_false(shape in ("battleship_B", "battleship_G", "battleship_W"), f"Invalid battleship shape: {shape}.")
             fail_false(fleet_name in ("", shape), "Multiple fleet shapes are not allowed.")
 
             fleet_name = shape
@@ -66,6 +66,7 @@ class BattleshipSolver(Solver):
                 self.add_program_line(f":- grid({r + 1}, {c}), {fleet_name}({r + 1}, {c}).")
                 self.add_program_line(f":- grid({r - 1}, {c}), not {fleet_name}({r - 1}, {c}).")
 
+        fleet_name = fleet_name or "battleship_B"  # set a default battleship fleet name
         self.add_program_line(shade_c(color=fleet_name))
         self.add_program_line(adjacent(_type=4))
         self.add_program_line(adjacent(_type="x"))
-- 
2.43.0


From 590739a00c446add0da3c5dab9d1f7531d4ffb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 26/63] fix: pentopia: four arrows need a shaded cell in sight

---
 solver/pentopia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/pentopia.py b/solver/pentopia.py
index c1c9755..90ee142 100644
--- a/solver/pentopia.py
+++ b/solver/pentopia.py
@@ -23,7 +23,7 @@ def avoid_adjacent_omino(num: int = 5, color: str = "black") -> str:
 def opia_constraint(r: int, c: int, mask: List[bool], lmt: int, color: str = "black") -> str:
     """Generate a constraint for opia-like puzzles."""
     m_t, m_l, m_b, m_r = mask
-    cmp = f"N {'=' if m_t else '<'} N1, N {'=' if m_b else '<'} N2, N {'=' if m_l else '<'} N3, N {'=' if m_r else '<'} N4"
+    cmp = f"N < {lmt}, N {'=' if m_t else '<'} N1, N {'=' if m_b else '<'} N2, N {'=' if m_l else '<'} N3, N {'=' if m_r else '<'} N4"
 
     top = f"top({r}, {c}, {r} - Mt) :- Mt = #max {{ R: grid(R, {c}), {color}(R, {c}), R <= {r} }}, grid(Mt, _).\n"
     top += f"top({r}, {c}, {lmt}) :- Mt = #max {{ R: grid(R, {c}), {color}(R, {c}), R <= {r} }}, not grid(Mt, _).\n"
-- 
2.43.0


From 243334406e20a0e80cbb0ddacd03397e84cc5c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:18 +0000
Subject: [PATCH 27/63] fix: heyawake, heyablock, hinge: a crossed border is no
 border

---
 solver/heyablock.py | 4 ++--
 solver/heyawake.py  | 4 ++--
 solver/hinge.py     | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/solver/heyablock.py b/solver/heyablock.py
index 64c3176..d852f7a 100644
--- a/solver/heyablock.py
+++ b/solver/heyablock.py
@@ -47,13 +47,13 @@ class HeyablockSolver(Solver):
                 self.add_program_line(count(("gt", 0), color="gray", _type="area", _id=i))
 
         for r in range(puzzle.row):
-            borders_in_row = [c for c in range(1, puzzle.col) if Point(r, c, Direction.LEFT) in puzzle.edge]
+            borders_in_row = [c for c in range(1, puzzle.col) if puzzle.edge.get(Point(r, c, Direction.LEFT))]
             for i in range(len(borders_in_row) - 1):
                 b1, b2 = borders_in_row[i], borders_in_row[i + 1]
                 self.add_program_line(avoid_rect(1, b2 - b1 + 2, color="not gray", corner=(r, b1 - 1)))
 
         for c in range(puzzle.col):
-            borders_in_col = [r for r in range(1, puzzle.row) if Point(r, c, Direction.TOP) in puzzle.edge]
+            borders_in_col = [r for r in range(1, puzzle.row) if puzzle.edge.get(Point(r, c, Direction.TOP))]
             for i in range(len(borders_in_col) - 1):
                 b1, b2 = borders_in_col[i], borders_in_col[i + 1]
                 self.add_program_line(avoid_rect(b2 - b1 + 2, 1, color="not gray", corner=(b1 - 1, c)))
diff --git a/solver/heyawake.py b/solver/heyawake.py
index 13ecad3..dee3ac1 100644
--- a/solver/heyawake.py
+++ b/solver/heyawake.py
@@ -153,13 +153,13 @@ class HeyawakeSolver(Solver):
                         self.add_program_line(limit_border(lmt_border, ar, puzzle, _type="right", color="gray"))
 
         for r in range(puzzle.row):
-            borders_in_row = [c for c in range(1, puzzle.col) if Point(r, c, Direction.LEFT) in puzzle.edge]
+            borders_in_row = [c for c in range(1, puzzle.col) if puzzle.edge.get(Point(r, c, Direction.LEFT))]
             for i in range(len(borders_in_row) - 1):
                 b1, b2 = borders_in_row[i], borders_in_row[i + 1]
                 self.add_program_line(avoid_rect(1, b2 - b1 + 2, color="not gray", corner=(r, b1 - 1)))
 
         for c in range(puzzle.col):
-            borders_in_col = [r for r in range(1, puzzle.row) if Point(r, c, Direction.TOP) in puzzle.edge]
+            borders_in_col = [r for r in range(1, puzzle.row) if puzzle.edge.get(Point(r, c, Direction.TOP))]
             for i in range(len(borders_in_col) - 1):
                 b1, b2 = borders_in_col[i], borders_in_col[i + 1]
                 self.add_program_line(avoid_rect(b2 - b1 + 2, 1, color="not gray", corner=(b1 - 1, c)))
diff --git a/solver/hinge.py b/solver/hinge.py
index da7e168..354762a 100644
--- a/solver/hinge.py
+++ b/solver/hinge.py
@@ -47,9 +47,9 @@ class HingeSolver(Solver):
         for r in range(1, puzzle.row):
             c = 0
             while c < puzzle.col:
-                if Point(r, c, Direction.TOP) in puzzle.edge:
+                if puzzle.edge.get(Point(r, c, Direction.TOP)):
                     c0 = c
-                    while c < puzzle.col and Point(r, c, Direction.TOP) in puzzle.edge:
+                    while c < puzzle.col and puzzle.edge.get(Point(r, c, Direction.TOP)):
                         self.add_program_line(f"edge_top({r}, {c}).")
                         self.add_program_line(f'symmetry_axis({r}, {c}, {r}, {c0}, "H").')
                         c += 1
@@ -59,9 +59,9 @@ class HingeSolver(Solver):
         for c in range(1, puzzle.col):
             r = 0
             while r < puzzle.row:
-                if Point(r, c, Direction.LEFT) in puzzle.edge:
+                if puzzle.edge.get(Point(r, c, Direction.LEFT)):
                     r0 = r
-                    while r < puzzle.row and Point(r, c, Direction.LEFT) in puzzle.edge:
+                    while r < puzzle.row and puzzle.edge.get(Point(r, c, Direction.LEFT)):
                         self.add_program_line(f"edge_left({r}, {c}).")
                         self.add_program_line(f'symmetry_axis({r}, {c}, {r0}, {c}, "V").')
                         r += 1
-- 
2.43.0


From ed1a0ada2e4059c3aa44303f8cdcd9ddba3a873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 28/63] fix: symmarea: areas without a clue are symmetric in
 fast mode, too

---
 solver/symmarea.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver/symmarea.py b/solver/symmarea.py
index 1716869..425965c 100644
--- a/solver/symmarea.py
+++ b/solver/symmarea.py
@@ -104,7 +104,10 @@ def symmetry_area(fast: bool = False) -> str:
 
         rule += "symm_coord_sumx(R, C, SR, SC) :- grid(R, C), have_numberx(R, C), min_rx(R, C, MINR), max_rx(R, C, MAXR), min_cx(R, C, MINC), max_cx(R, C, MAXC), SR = MINR + MAXR, SC = MINC + MAXC.\n"
         rule += f":- have_numberx(R, C), symm_coord_sumx(R, C, SR, SC), not {tag_numberx}(R, C, SR - R, SC - C).\n"
-
+    else:  # areas of at most 5 cells
+        rule += "{ symm_coord_sumx(R, C, R + R0, C + C0) : grid(R0, C0), |R0 - R| + |C0 - C| <= 4 } = 1 :- grid(R, C), have_numberx(R, C).\n"
+        rule += f":- symm_coord_sumx(R, C, SR, SC), not {tag_numberx}(R, C, SR - R, SC - C).\n"
+        rule += ":- symm_coord_sumx(R, C, SR, SC), have_numberx(R0, C0), adj_edge(R, C, R0, C0), not symm_coord_sumx(R0, C0, SR, SC).\n"
     return rule.strip()
 
 
-- 
2.43.0


From 56bf378a5f24898aeaf6a4f4da7640f54f3c3973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 29/63] fix: mannequin: distances in a room have no upper bound

---
 solver/mannequin.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/solver/mannequin.py b/solver/mannequin.py
index 44aafe9..e5b1593 100644
--- a/solver/mannequin.py
+++ b/solver/mannequin.py
@@ -1,6 +1,7 @@
 """The Mannequin Gate solver."""
 
-from typing import Tuple
+from collections import deque
+from typing import Iterable, Tuple
 
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
@@ -10,14 +11,23 @@ from noqx.rule.neighbor import adjacent, area_adjacent
 from noqx.rule.reachable import grid_color_connected
 
 
-def distance_in_area(grid_size: Tuple[int, int]) -> str:
-    """Generate a rule to calculate the distance between grids in an area."""
-    r, c = grid_size
-    rule = "dist(R, C, R, C, -1) :- grid(R, C).\n"
-    rule += "dist(R, C, R0, C0, N) :- grid(R, C), grid(R0, C0), dist(R0, C0, R, C, N).\n"
-    # The following r + c upper bound is not rigorous.
-    # TODO Actually it's better to pre-calculate the distance in python for this puzzle.
-    rule += f"dist(R, C, R0, C0, N) :- grid(R, C), grid(R0, C0), N < {r + c}, (R0, C0) != (R, C), area(A, R, C), area(A, R0, C0), N - 1 = #min{{ N1 : adj_4(R0, C0, R1, C1), area(A, R1, C1), dist(R, C, R1, C1, N1) }}.\n"
+def distance_in_area(src_cells: Iterable[Tuple[int, int]]) -> str:
+    """Calculate the distance (the number of cells in between) of every two cells in an area."""
+    rule = ""
+    cells = set(src_cells)
+    for r, c in cells:
+        dist = {(r, c): -1}
+        queue = deque([(r, c)])
+        while queue:
+            r0, c0 = queue.popleft()
+            for r1, c1 in ((r0 - 1, c0), (r0, c0 - 1), (r0, c0 + 1), (r0 + 1, c0)):
+                if (r1, c1) in cells and (r1, c1) not in dist:
+                    dist[(r1, c1)] = dist[(r0, c0)] + 1
+                    queue.append((r1, c1))
+
+        for (r0, c0), d in dist.items():
+            rule += f"dist({r}, {c}, {r0}, {c0}, {d}).\n"
+
     return rule.strip()
 
 
@@ -52,12 +62,12 @@ class MannequinSolver(Solver):
         self.add_program_line(adjacent())
         self.add_program_line(grid_color_connected(color="not gray", grid_size=(puzzle.row, puzzle.col)))
         self.add_program_line(area_adjacent())
-        self.add_program_line(distance_in_area(grid_size=(puzzle.row, puzzle.col)))
         self.add_program_line(mannequin_constraint(color="gray"))
 
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
+            self.add_program_line(distance_in_area(src_cells=ar))
             self.add_program_line(count(target=2, color="gray", _type="area", _id=i))
             if rc:
                 num = puzzle.text.get(Point(*rc, Direction.CENTER, "normal"))
-- 
2.43.0


From a955ca69c83e89807a20f4d8b344fff359c0b5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:23 +0000
Subject: [PATCH 30/63] fix: nonogram: clues of a line are ordered by their
 places

---
 solver/nonogram.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/nonogram.py b/solver/nonogram.py
index 50544ac..2264df6 100644
--- a/solver/nonogram.py
+++ b/solver/nonogram.py
@@ -80,11 +80,13 @@ class NonogramSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
+        # clues of a line are listed in the order of their places, not in the order they are drawn
+        clues = sorted(puzzle.text.items(), key=lambda item: (item[0].r, item[0].c))
         top_clues = {}
         for c in range(puzzle.col):
             top_clues[c] = tuple(
                 clue
-                for (r1, c1, d1, pos1), clue in puzzle.text.items()
+                for (r1, c1, d1, pos1), clue in clues
                 if r1 <= -1 and c1 == c and d1 == Direction.CENTER and pos1 == "normal"
             )
 
@@ -92,7 +94,7 @@ class NonogramSolver(Solver):
         for r in range(puzzle.row):
             left_clues[r] = tuple(
                 clue
-                for (r1, c1, d1, pos1), clue in puzzle.text.items()
+                for (r1, c1, d1, pos1), clue in clues
                 if r1 == r and c1 <= -1 and d1 == Direction.CENTER and pos1 == "normal"
             )
 
-- 
2.43.0


From c000fb7a024e92d1ae48992f3f544f52fb7e3271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 31/63] fix: penpa: a drawn line between two cells is not drawn
 again in the answer

---
 noqx/puzzle/penpa.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/noqx/puzzle/penpa.py b/noqx/puzzle/penpa.py
index 3901163..6d3a643 100644
--- a/noqx/puzzle/penpa.py
+++ b/noqx/puzzle/penpa.py
@@ -291,18 +291,24 @@ class PenpaPuzzle(Puzzle):
             index_1 = self.coord_to_index((point.r, point.c), category=0)
             if point.pos.startswith("r"):
                 index_2 = self.coord_to_index((point.r, point.c), category=3)
+                index_3 = self.coord_to_index((point.r, point.c + 1), category=0)
             elif point.pos.startswith("d"):
                 index_2 = self.coord_to_index((point.r, point.c), category=2)
+                index_3 = self.coord_to_index((point.r + 1, point.c), category=0)
             elif point.pos.startswith("l"):
                 index_2 = self.coord_to_index((point.r, point.c - 1), category=3)
+                index_3 = self.coord_to_index((point.r, point.c - 1), category=0)
             elif point.pos.startswith("u"):
                 index_2 = self.coord_to_index((point.r - 1, point.c), category=2)
+                index_3 = self.coord_to_index((point.r - 1, point.c), category=0)
             else:
                 raise ValueError("Unsupported line direction.")
 
+            # a line between the centers of two cells covers the halves in both of them
+            keys = (f"{index_1},{index_2}", f"{index_1},{index_3}", f"{index_3},{index_1}")
             if self.puzzle_name == "hashi":
                 self.solution["line"][f"{index_1},{index_2}"] = 3 if point.pos.endswith("_1") else 30
-            elif not self.problem["line"].get(f"{index_1},{index_2}"):  # avoid overwriting the original stuff
+            elif not any(self.problem["line"].get(key) for key in keys):  # avoid overwriting the original stuff
                 self.solution["line"][f"{index_1},{index_2}"] = 3
 
     def _pack_board(self):
-- 
2.43.0


From 9e177f7ec4cd4e2f935e8b1701aa4ccda9a5889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 32/63] fix: rooms: refuse a second clue in a room, and clues
 out of place

Which of two clues of a room was read depended on a random start cell, and a
clue in another position or style was dropped or ended in a KeyError.
---
 noqx/rule/helper.py       |  1 +
 solver/aqre.py            |  6 +++++-
 solver/chocona.py         |  6 +++++-
 solver/cocktail.py        |  6 +++++-
 solver/country.py         |  6 +++++-
 solver/detour.py          |  6 +++++-
 solver/heyablock.py       |  6 +++++-
 solver/heyawake.py        |  6 +++++-
 solver/hinge.py           |  6 +++++-
 solver/juosan.py          | 13 ++++++++++---
 solver/mannequin.py       |  6 +++++-
 solver/railpool.py        |  6 +++++-
 solver/shimaguni.py       |  6 +++++-
 solver/stostone.py        |  6 +++++-
 solver/yajilin_regions.py |  6 +++++-
 15 files changed, 76 insertions(+), 16 deletions(-)

diff --git a/noqx/rule/helper.py b/noqx/rule/helper.py
index 2f89f12..1228801 100644
--- a/noqx/rule/helper.py
+++ b/noqx/rule/helper.py
@@ -95,6 +95,7 @@ def full_bfs(
                     queue.append(neighbor)
 
             if clues and (r, c) in rc_set:
+                fail_false(clue_cell is None, "There should be at most one clue in a room.")
                 clue_cell = (r, c)
 
         return clue_cell, tuple(connected_component)
diff --git a/solver/aqre.py b/solver/aqre.py
index a675660..f18305b 100644
--- a/solver/aqre.py
+++ b/solver/aqre.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, display, grid, shade_c
-from noqx.rule.helper import full_bfs
+from noqx.rule.helper import full_bfs, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import grid_color_connected
 from noqx.rule.shape import avoid_rect
@@ -43,6 +43,10 @@ class AqreSolver(Solver):
         self.add_program_line(avoid_rect(4, 1, color="not gray"))
         self.add_program_line(avoid_rect(1, 4, color="not gray"))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
diff --git a/solver/chocona.py b/solver/chocona.py
index b38f772..df8da93 100644
--- a/solver/chocona.py
+++ b/solver/chocona.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, display, grid, shade_c
-from noqx.rule.helper import full_bfs
+from noqx.rule.helper import full_bfs, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent
 from noqx.rule.shape import all_rect
 
@@ -29,6 +29,10 @@ class ChoconaSolver(Solver):
         self.add_program_line(shade_c("gray"))
         self.add_program_line(adjacent())
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
diff --git a/solver/cocktail.py b/solver/cocktail.py
index f162f00..3dded1a 100644
--- a/solver/cocktail.py
+++ b/solver/cocktail.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, display, grid, shade_c
-from noqx.rule.helper import full_bfs
+from noqx.rule.helper import full_bfs, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import area_color_connected, grid_color_connected
 from noqx.rule.shape import avoid_rect
@@ -36,6 +36,10 @@ class CocktailSolver(Solver):
         self.add_program_line(area_color_connected(color="gray", adj_type=4))
         self.add_program_line(avoid_rect(2, 2, color="gray"))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
diff --git a/solver/country.py b/solver/country.py
index 0db3f96..661286e 100644
--- a/solver/country.py
+++ b/solver/country.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
 from noqx.rule.common import area, count, direction, display, fill_path, grid, shade_c
-from noqx.rule.helper import full_bfs
+from noqx.rule.helper import full_bfs, validate_direction, validate_type
 from noqx.rule.loop import count_area_pass, single_loop
 from noqx.rule.neighbor import adjacent, area_border
 from noqx.rule.reachable import grid_color_connected
@@ -37,6 +37,10 @@ class CountrySolver(Solver):
         self.add_program_line(grid_color_connected(color="country_road", adj_type="loop"))
         self.add_program_line(single_loop(color="country_road"))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
diff --git a/solver/detour.py b/solver/detour.py
index 1624054..2222fee 100644
--- a/solver/detour.py
+++ b/solver/detour.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
 from noqx.rule.common import area, direction, display, fill_path, grid
-from noqx.rule.helper import full_bfs
+from noqx.rule.helper import full_bfs, validate_direction, validate_type
 from noqx.rule.loop import loop_turning, single_loop
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import grid_color_connected
@@ -35,6 +35,10 @@ class DetourSolver(Solver):
         self.add_program_line(single_loop(color="detour"))
         self.add_program_line(loop_turning(color="detour"))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "sudoku_0")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
diff --git a/solver/heyablock.py b/solver/heyablock.py
index d852f7a..55e7235 100644
--- a/solver/heyablock.py
+++ b/solver/heyablock.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, display, grid, shade_c
-from noqx.rule.helper import full_bfs
+from noqx.rule.helper import full_bfs, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import area_color_connected, grid_color_connected
 from noqx.rule.shape import avoid_rect
@@ -33,6 +33,10 @@ class HeyablockSolver(Solver):
         self.add_program_line(grid_color_connected(color="not gray", grid_size=(puzzle.row, puzzle.col)))
         self.add_program_line(area_color_connected(color="gray"))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
diff --git a/solver/heyawake.py b/solver/heyawake.py
index dee3ac1..3894e6a 100644
--- a/solver/heyawake.py
+++ b/solver/heyawake.py
@@ -5,7 +5,7 @@ from typing import Iterable, Tuple, Union
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, display, grid, shade_c
-from noqx.rule.helper import full_bfs, tag_encode
+from noqx.rule.helper import full_bfs, tag_encode, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent, avoid_adjacent_color
 from noqx.rule.reachable import grid_color_connected
 from noqx.rule.shape import avoid_rect
@@ -132,6 +132,10 @@ class HeyawakeSolver(Solver):
         self.add_program_line(avoid_diamond_pattern(color="gray"))
         self.add_program_line(grid_color_connected(color="not gray", grid_size=(puzzle.row, puzzle.col)))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
diff --git a/solver/hinge.py b/solver/hinge.py
index 354762a..91b2844 100644
--- a/solver/hinge.py
+++ b/solver/hinge.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, display, grid, shade_c
-from noqx.rule.helper import full_bfs
+from noqx.rule.helper import full_bfs, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent
 
 
@@ -67,6 +67,10 @@ class HingeSolver(Solver):
                         r += 1
                 r += 1
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
diff --git a/solver/juosan.py b/solver/juosan.py
index 86b134f..ba5c9a0 100644
--- a/solver/juosan.py
+++ b/solver/juosan.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
 from noqx.rule.common import area, display, grid, shade_c
-from noqx.rule.helper import full_bfs
+from noqx.rule.helper import full_bfs, validate_direction, validate_type
 
 
 def jousan_constraint():
@@ -44,11 +44,18 @@ class JuosanSolver(Solver):
         self.add_program_line(shade_c())
         self.add_program_line(jousan_constraint())
 
-        areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
+        clues = {}
+        for (r, c, d, pos), text in puzzle.text.items():
+            validate_direction(r, c, d)
+            if not (pos == "normal" and text in ("——", "|")):  # these are marks of an answer
+                validate_type(pos, "sudoku_0")
+                clues[Point(r, c, d, pos)] = text
+
+        areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, clues)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
             if rc:
-                num = puzzle.text.get(Point(*rc, Direction.CENTER, "sudoku_0"))
+                num = clues.get(Point(*rc, Direction.CENTER, "sudoku_0"))
                 if isinstance(num, int):
                     self.add_program_line(count_lines(i, num, len(ar) - num))
 
diff --git a/solver/mannequin.py b/solver/mannequin.py
index e5b1593..243ba9c 100644
--- a/solver/mannequin.py
+++ b/solver/mannequin.py
@@ -6,7 +6,7 @@ from typing import Iterable, Tuple
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, display, grid, shade_c
-from noqx.rule.helper import full_bfs
+from noqx.rule.helper import full_bfs, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent, area_adjacent
 from noqx.rule.reachable import grid_color_connected
 
@@ -64,6 +64,10 @@ class MannequinSolver(Solver):
         self.add_program_line(area_adjacent())
         self.add_program_line(mannequin_constraint(color="gray"))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
diff --git a/solver/railpool.py b/solver/railpool.py
index 6d013d2..9b4715d 100644
--- a/solver/railpool.py
+++ b/solver/railpool.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, defined, direction, display, fill_path, grid
-from noqx.rule.helper import fail_false, full_bfs
+from noqx.rule.helper import fail_false, full_bfs, validate_direction, validate_type
 from noqx.rule.loop import single_loop
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import grid_color_connected
@@ -51,6 +51,10 @@ class RailPoolSolver(Solver):
         self.add_program_line(single_loop(color="railpool"))
         self.add_program_line(len_segment_area(color="railpool"))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, ("tapa_0", "tapa_1", "tapa_2", "tapa_3"))
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
diff --git a/solver/shimaguni.py b/solver/shimaguni.py
index b021656..b22adfc 100644
--- a/solver/shimaguni.py
+++ b/solver/shimaguni.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, display, grid, shade_c
-from noqx.rule.helper import full_bfs
+from noqx.rule.helper import full_bfs, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent, area_adjacent
 from noqx.rule.reachable import area_color_connected
 
@@ -45,6 +45,10 @@ class ShimaguniSolver(Solver):
         self.add_program_line(area_adjacent())
         self.add_program_line(adjacent_area_different_size(color="gray"))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
diff --git a/solver/stostone.py b/solver/stostone.py
index 9af6e0c..6fd982a 100644
--- a/solver/stostone.py
+++ b/solver/stostone.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, display, grid, shade_c
-from noqx.rule.helper import fail_false, full_bfs
+from noqx.rule.helper import fail_false, full_bfs, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import area_color_connected
 
@@ -45,6 +45,10 @@ class StostoneSolver(Solver):
         self.add_program_line(area_color_connected(color="gray"))
         self.add_program_line(valid_stostone(color="gray"))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
diff --git a/solver/yajilin_regions.py b/solver/yajilin_regions.py
index dc1d83b..7168ad2 100644
--- a/solver/yajilin_regions.py
+++ b/solver/yajilin_regions.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, direction, display, fill_path, grid, shade_cc
-from noqx.rule.helper import fail_false, full_bfs
+from noqx.rule.helper import fail_false, full_bfs, validate_direction, validate_type
 from noqx.rule.loop import single_loop
 from noqx.rule.neighbor import adjacent, avoid_adjacent_color
 from noqx.rule.reachable import grid_color_connected
@@ -37,6 +37,10 @@ class YajilinRegionsSolver(Solver):
         self.add_program_line(grid_color_connected(color="white", adj_type="loop"))
         self.add_program_line(single_loop(color="white"))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "sudoku_0")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
-- 
2.43.0


From 304c9cb93298a563cbc31991b95b7ef6f9a7f944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 33/63] fix: country: borders outside the playing area are no
 border between rooms

---
 solver/country.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/country.py b/solver/country.py
index 661286e..b58ed33 100644
--- a/solver/country.py
+++ b/solver/country.py
@@ -52,10 +52,10 @@ class CountrySolver(Solver):
                     self.add_program_line(count(num, color="country_road", _type="area", _id=i))
 
         for (r, c, d, _), draw in puzzle.edge.items():
-            if d == Direction.TOP and 0 < r < puzzle.row and draw:
+            if d == Direction.TOP and 0 < r < puzzle.row and 0 <= c < puzzle.col and draw:
                 self.add_program_line(f":- not country_road({r}, {c}), not country_road({r - 1}, {c}).")
 
-            if d == Direction.LEFT and 0 < c < puzzle.col and draw:
+            if d == Direction.LEFT and 0 <= r < puzzle.row and 0 < c < puzzle.col and draw:
                 self.add_program_line(f":- not country_road({r}, {c}), not country_road({r}, {c - 1}).")
 
         for (r, c, _, d), draw in puzzle.line.items():
-- 
2.43.0


From 2d0ded776b080d6ca1a46560f9aed814dab3d4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:13 +0000
Subject: [PATCH 34/63] fix: server: a refusal that quotes an invalid text is a
 JSON response, too

---
 main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.py b/main.py
index f30d890..727011c 100644
--- a/main.py
+++ b/main.py
@@ -37,7 +37,8 @@ async def solver_api(request: Request) -> JSONResponse:
         return JSONResponse(result)
     except ValueError as err:
         logging.error(traceback.format_exc())
-        return JSONResponse({"detail": str(err)}, status_code=400)
+        detail = str(err).encode("utf-8", "replace").decode("utf-8")  # the message may quote an invalid text
+        return JSONResponse({"detail": detail}, status_code=400)
     except TimeoutError as err:
         return JSONResponse({"detail": str(err)}, status_code=504)
     except Exception:  # pylint: disable=broad-except  # pragma: no cover
-- 
2.43.0


From ada0460b73a5d915c3a945ffe7f37836e289dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 35/63] fix: page: a penpa link is opened as it is

---
 penpa-edit/app.js | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index eacf0e4..ad36b73 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -9,6 +9,13 @@ function exp() {
 function imp(penpa) {
   let urlstring = penpa || document.getElementById("urlstring").value;
 
+  // penpa links need no replacement
+  if (urlstring.includes("m=edit")) {
+    import_url(urlstring);
+    clear_info();
+    return;
+  }
+
   // replace unsupported solver to supported solvers
   urlstring = urlstring.replace("chocona", "aqre");
   urlstring = urlstring.replace("cocktail", "aqre");
-- 
2.43.0


From a6570352db28d0b01403ed32ca593dc3e997a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 36/63] fix: page: Solve is ready again after a failure

---
 penpa-edit/app.js | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index ad36b73..e1e4940 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -331,11 +331,14 @@ $(window).on("load", function () {
             footer: issueMessage,
           });
         } finally {
-          if (solutionList) {
+          if (solutionList && solutionList.length > 0) {
             solveButton.textContent = `Solution (${solutionPointer + 1}/${
               solutionList.length === 10 ? "10+" : solutionList.length
             })`;
             solveButton.disabled = solutionList.length === 1 || solutionList.length === 0;
+          } else {
+            solveButton.textContent = "Solve";
+            solveButton.disabled = false;
           }
         }
       } else {
@@ -392,6 +395,12 @@ $(window).on("load", function () {
             });
           })
           .finally(() => {
+            if (!solutionList || solutionList.length === 0) {
+              solveButton.textContent = "Solve";
+              solveButton.disabled = false;
+              return;
+            }
+
             solveButton.textContent = `Solution (${solutionPointer + 1}/${
               solutionList.length === 10 ? "10+" : solutionList.length
             })`;
-- 
2.43.0


From 0d09ee9412c2e8b874390243401daa74faf9c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 37/63] fix: page: a reply to a request given up by Reset is
 dropped

---
 penpa-edit/app.js | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index e1e4940..ec3e7cb 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -169,6 +169,7 @@ $(window).on("load", function () {
   let solutionList = null;
   let solutionPointer = -1;
   let puzzleParameters = {};
+  let currentRequest = 0; // replies to the requests before this one are dropped
 
   let puzzleSearchBoxInput = document.querySelector(".choices__input.choices__input--cloned");
   puzzleSearchBoxInput.id = "select2_search"; // spoof penpa+ to type words in the search box
@@ -342,6 +343,7 @@ $(window).on("load", function () {
           }
         }
       } else {
+        const request = ++currentRequest;
         fetch("/api/solve/", {
           method: "POST",
           body: JSON.stringify({
@@ -353,6 +355,8 @@ $(window).on("load", function () {
         })
           .then(async (response) => {
             let body = await response.json();
+            if (request !== currentRequest) return;
+
             if (response.status === 400 || response.status === 500) {
               Swal.fire({
                 icon: "error",
@@ -387,6 +391,8 @@ $(window).on("load", function () {
             }
           })
           .catch((e) => {
+            if (request !== currentRequest) return;
+
             Swal.fire({
               icon: "question",
               title: "Unexpected error",
@@ -395,6 +401,8 @@ $(window).on("load", function () {
             });
           })
           .finally(() => {
+            if (request !== currentRequest) return;
+
             if (!solutionList || solutionList.length === 0) {
               solveButton.textContent = "Solve";
               solveButton.disabled = false;
@@ -434,6 +442,7 @@ $(window).on("load", function () {
       advancecontrol_toggle();
       advancecontrol_toggle();
     }
+    currentRequest++;
     puzzleContent = null;
     solutionList = [];
     solutionPointer = -1;
-- 
2.43.0


From fdb471b0372b3206a32517e8a693a044cc1740e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 38/63] fix: page: the in-browser solver lists each answer
 once, with the server's settings

---
 penpa-edit/app.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index ec3e7cb..ea958b0 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -294,7 +294,7 @@ $(window).on("load", function () {
             throw new Error(program.get("result"));
           }
 
-          const options = "--sat-prepro --trans-ext=dynamic --eq=1 --models=10";
+          const options = "--sat-prepro --trans-ext=dynamic --eq=0 --models=10 --project=show";
           const result = await clingo.run(program.get("result"), options);
 
           if (result.Result === "ERROR") {
-- 
2.43.0


From cc02ce5fb8aec254ebadb8f9666fd8d2668671a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 39/63] fix: deployment: building it does not write to the page
 sources

---
 main.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/main.py b/main.py
index 727011c..d05c3a3 100644
--- a/main.py
+++ b/main.py
@@ -84,8 +84,9 @@ if __name__ == "main" or (__name__ == "__main__" and args.enable_deployment):
     with open("./penpa-edit/prepare_deployment.js", "r", encoding="utf-8", newline="\n") as f:
         fin = f.read()
 
-    with open("./penpa-edit/prepare_deployment.js", "w", encoding="utf-8", newline="\n") as f:
-        f.write(fin.replace("ENABLE_DEPLOYMENT = true", "ENABLE_DEPLOYMENT = false"))
+    if "ENABLE_DEPLOYMENT = true" in fin:
+        with open("./penpa-edit/prepare_deployment.js", "w", encoding="utf-8", newline="\n") as f:
+            f.write(fin.replace("ENABLE_DEPLOYMENT = true", "ENABLE_DEPLOYMENT = false"))
 
 
 if args.enable_deployment:
@@ -107,26 +108,17 @@ if args.enable_deployment:
     with open("pyscript.json", "w", encoding="utf-8", newline="\n") as f:
         json.dump(file_dict, f, indent=2)
 
-    with open("./penpa-edit/prepare_deployment.js", "r", encoding="utf-8", newline="\n") as f:
-        fin = f.read()
-
-    with open("./penpa-edit/prepare_deployment.js", "w", encoding="utf-8", newline="\n") as f:
-        f.write(fin.replace("ENABLE_DEPLOYMENT = false", "ENABLE_DEPLOYMENT = true"))
-
     for filename in os.listdir("penpa-edit"):
         shutil.copy(f"./penpa-edit/{filename}", f"./dist/page/penpa-edit/{filename}")
 
+    with open("./dist/page/penpa-edit/prepare_deployment.js", "w", encoding="utf-8", newline="\n") as f:
+        f.write(fin.replace("ENABLE_DEPLOYMENT = false", "ENABLE_DEPLOYMENT = true"))
+
     for filename in ["pyscript.json", "main_deploy.py"]:
         shutil.copy(f"./{filename}", f"./dist/page/penpa-edit/{filename}")
 
     shutil.copy("./index.html", "./dist/page/index.html")
 
-    with open("./penpa-edit/prepare_deployment.js", "r", encoding="utf-8", newline="\n") as f:
-        fin = f.read()
-
-    with open("./penpa-edit/prepare_deployment.js", "w", encoding="utf-8", newline="\n") as f:
-        f.write(fin.replace("ENABLE_DEPLOYMENT = true", "ENABLE_DEPLOYMENT = false"))
-
     sys.exit(0)
 
 
-- 
2.43.0


From e6723b1d0b8b9ae70e17addb2d662d51a1b1eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 40/63] fix: rules: unique_num in a row is about rows, and in a
 column about columns

---
 noqx/rule/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noqx/rule/common.py b/noqx/rule/common.py
index c5284c4..4899243 100644
--- a/noqx/rule/common.py
+++ b/noqx/rule/common.py
@@ -142,10 +142,10 @@ def unique_num(color: str = "black", _type: str = "row") -> str:
     A number rule should be defined first.
     """
     if _type == "row":
-        return f":- grid(_, C), number(_, _, N), {{ {color}(R, C) : number(R, C, N) }} > 1."
+        return f":- grid(R, _), number(_, _, N), {{ {color}(R, C) : number(R, C, N) }} > 1."
 
     if _type == "col":
-        return f":- grid(R, _), number(_, _, N), {{ {color}(R, C) : number(R, C, N) }} > 1."
+        return f":- grid(_, C), number(_, _, N), {{ {color}(R, C) : number(R, C, N) }} > 1."
 
     if _type == "area":
         return f":- area(A, _, _), number(_, _, N), {{ {color}(R, C) : area(A, R, C), number(R, C, N) }} > 1."
-- 
2.43.0


From d5e65db0a12a8952909574939ed0f83b813d5fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 41/63] fix: balance: refuse a number that is not in a cell

---
 solver/balance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/balance.py b/solver/balance.py
index 9a7d759..85ca9f8 100644
--- a/solver/balance.py
+++ b/solver/balance.py
@@ -5,7 +5,7 @@ from typing import Tuple
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
 from noqx.rule.common import defined, direction, display, fill_path, grid, shade_c
-from noqx.rule.helper import validate_direction
+from noqx.rule.helper import validate_direction, validate_type
 from noqx.rule.loop import loop_segment, loop_sign, single_loop
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import grid_color_connected
@@ -62,6 +62,10 @@ class BalanceSolver(Solver):
         self.add_program_line(single_loop(color="balance"))
         self.add_program_line(loop_sign(color="balance"))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         for (r, c, d, _), symbol_name in puzzle.symbol.items():
             validate_direction(r, c, d)
             self.add_program_line(f"balance({r}, {c}).")
-- 
2.43.0


From bb24639b5a31c52c401d8ae29e9a66ca5e7083b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 42/63] fix: coral: refuse a clue that is not in a cell

---
 solver/coral.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/solver/coral.py b/solver/coral.py
index 999b99b..0cd4000 100644
--- a/solver/coral.py
+++ b/solver/coral.py
@@ -5,6 +5,7 @@ from collections import Counter
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Puzzle
 from noqx.rule.common import display, grid, shade_c
+from noqx.rule.helper import validate_direction, validate_type
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import border_color_connected, grid_color_connected
 from noqx.rule.shape import avoid_rect
@@ -38,6 +39,10 @@ class CoralSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         top_clues = {}
         for c in range(puzzle.col):
             top_clues[c] = tuple(
-- 
2.43.0


From 9c80c819a3365434dcf3cb2229fa4a229b6e15cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 43/63] fix: nonogram: refuse a clue that is not in a cell

---
 solver/nonogram.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/solver/nonogram.py b/solver/nonogram.py
index 2264df6..af46841 100644
--- a/solver/nonogram.py
+++ b/solver/nonogram.py
@@ -5,6 +5,7 @@ from typing import Dict, Tuple, Union
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Puzzle
 from noqx.rule.common import display, shade_c
+from noqx.rule.helper import validate_direction, validate_type
 
 
 def nono_row(col: int, clues: Dict[int, Tuple[Union[int, str]]], color: str = "black"):
@@ -80,6 +81,10 @@ class NonogramSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         # clues of a line are listed in the order of their places, not in the order they are drawn
         clues = sorted(puzzle.text.items(), key=lambda item: (item[0].r, item[0].c))
         top_clues = {}
-- 
2.43.0


From 4b909be4a98c2b23ed7c2fb243f9151f6ef0d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 44/63] fix: factors: refuse a clue that is neither a number in
 a cell nor a clue of a room

---
 solver/factors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/factors.py b/solver/factors.py
index 3e5df35..8ed63ef 100644
--- a/solver/factors.py
+++ b/solver/factors.py
@@ -5,7 +5,7 @@ from typing import Iterable, Tuple
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
 from noqx.rule.common import area, display, fill_num, grid, unique_num
-from noqx.rule.helper import fail_false, full_bfs
+from noqx.rule.helper import fail_false, full_bfs, validate_direction, validate_type
 
 
 def area_product_aggregate(_id: int, src_cells: Iterable[Tuple[int, int]]) -> str:
@@ -53,6 +53,10 @@ class FactorsSolver(Solver):
         self.add_program_line(unique_num(_type="row", color="grid"))
         self.add_program_line(unique_num(_type="col", color="grid"))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, ("normal", "sudoku_0"))
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge)
         for i, ar in enumerate(areas):
             self.add_program_line(area(_id=i, src_cells=ar))
-- 
2.43.0


From 457ce917e1321c6576134925ed8045f09e3386f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 45/63] fix: nanro: refuse a clue that is neither a number in a
 cell nor a clue of a room

---
 solver/nanro.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/nanro.py b/solver/nanro.py
index ff723f6..e160cc9 100644
--- a/solver/nanro.py
+++ b/solver/nanro.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, display, fill_num, grid
-from noqx.rule.helper import fail_false, full_bfs
+from noqx.rule.helper import fail_false, full_bfs, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent, area_adjacent
 from noqx.rule.reachable import grid_color_connected
 from noqx.rule.shape import avoid_rect
@@ -45,6 +45,10 @@ class NanroSolver(Solver):
         self.add_program_line(nanro_fill_constraint(color="not gray"))
         self.add_program_line(nanro_avoid_adjacent())
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, ("normal", "sudoku_0"))
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge)
         for i, ar in enumerate(areas):
             self.add_program_line(area(_id=i, src_cells=ar))
-- 
2.43.0


From 72a93aeee748f9d99eddd3c04d77bfa74cd1d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 46/63] fix: onsen: refuse a clue that is not in a cell

---
 solver/onsen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/onsen.py b/solver/onsen.py
index c323f54..71c31f2 100644
--- a/solver/onsen.py
+++ b/solver/onsen.py
@@ -5,7 +5,7 @@ from typing import Union
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
 from noqx.rule.common import area, count, direction, display, fill_path, grid, shade_c
-from noqx.rule.helper import fail_false, full_bfs
+from noqx.rule.helper import fail_false, full_bfs, validate_direction, validate_type
 from noqx.rule.loop import single_loop
 from noqx.rule.neighbor import adjacent, area_border
 
@@ -70,6 +70,10 @@ class OnsenSolver(Solver):
         self.add_program_line(single_loop(color="onsen_loop"))
 
         onsen_id = 0
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge)
         for i, ar in enumerate(areas):
             self.add_program_line(area(_id=i, src_cells=ar))
-- 
2.43.0


From af238b11a3c1c563ab0b41ca53986e84b58a1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 47/63] fix: usoone: refuse a clue that is not in a cell

---
 solver/usoone.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/usoone.py b/solver/usoone.py
index 9b0851d..7540b0b 100644
--- a/solver/usoone.py
+++ b/solver/usoone.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import defined, display, grid, shade_c
-from noqx.rule.helper import fail_false, full_bfs, validate_direction
+from noqx.rule.helper import fail_false, full_bfs, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent, avoid_adjacent_color
 from noqx.rule.reachable import grid_color_connected
 
@@ -45,6 +45,10 @@ class UsooneSolver(Solver):
         self.add_program_line("ox_E__1(R, C) :- grid(R, C), clue(_, R, C, _), not wrong_clue(_, R, C).")
         self.add_program_line("ox_E__7(R, C) :- grid(R, C), clue(_, R, C, _), wrong_clue(_, R, C).")
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d)
+            validate_type(pos, "normal")
+
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge)
         for i, ar in enumerate(areas):
             for r, c in ar:
-- 
2.43.0


From 5e8d569158caf81d5fdc6345ebcd4c4eff1baa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 48/63] fix: firefly: refuse a number that is not at a
 firefly's corner

---
 solver/firefly.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/firefly.py b/solver/firefly.py
index b8a75b4..07f942c 100644
--- a/solver/firefly.py
+++ b/solver/firefly.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
 from noqx.rule.common import defined, direction, display, fill_path, grid
-from noqx.rule.helper import validate_direction
+from noqx.rule.helper import validate_direction, validate_type
 from noqx.rule.loop import convert_direction_to_edge, directed_loop
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import grid_color_connected
@@ -57,6 +57,10 @@ class FireflySolver(Solver):
         self.add_program_line(grid_color_connected(color="firefly_all", adj_type="loop_directed"))
         self.add_program_line(convert_direction_to_edge(directed=True))
 
+        for (r, c, d, pos), _ in puzzle.text.items():
+            validate_direction(r, c, d, Direction.TOP_LEFT)
+            validate_type(pos, "normal")
+
         for (r, c, d, _), symbol_name in puzzle.symbol.items():
             validate_direction(r, c, d, Direction.TOP_LEFT)
             shape, style = symbol_name.split("__")
-- 
2.43.0


From 3780aa04ea345f7e09168bf2579cd52767940ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 49/63] fix: kakuro: refuse clues and blocked cells out of
 place

---
 solver/kakuro.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/kakuro.py b/solver/kakuro.py
index 7ef207d..61d2e5e 100644
--- a/solver/kakuro.py
+++ b/solver/kakuro.py
@@ -5,7 +5,7 @@ from typing import List, Optional, Tuple
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
 from noqx.rule.common import area, defined, display, fill_num, grid, unique_num
-from noqx.rule.helper import fail_false, validate_direction
+from noqx.rule.helper import fail_false, validate_direction, validate_type
 
 
 class KakuroSolver(Solver):
@@ -26,8 +26,12 @@ class KakuroSolver(Solver):
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
         sums: List[Tuple[Optional[int], List[Tuple[int, int]]]] = []
+        for r, c, d, _ in puzzle.symbol:
+            validate_direction(r, c, d)
+
         for (r, c, d, pos), num in puzzle.text.items():
             validate_direction(r, c, d)
+            validate_type(pos, ("normal", "sudoku_1", "sudoku_2"))
             if pos == "sudoku_1" and isinstance(num, int):
                 area_points: List[Tuple[int, int]] = []
                 cur = c + 1
-- 
2.43.0


From 52ad65577f13bdaa42726b6c52c1632fdbd6768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 50/63] fix: triplace: refuse a clue that is in neither corner
 of a cell

---
 solver/triplace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/triplace.py b/solver/triplace.py
index 94799b5..fbe1fc3 100644
--- a/solver/triplace.py
+++ b/solver/triplace.py
@@ -5,7 +5,7 @@ from typing import List, Tuple
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
 from noqx.rule.common import area, defined, display, edge, grid
-from noqx.rule.helper import fail_false, tag_encode, validate_direction
+from noqx.rule.helper import fail_false, tag_encode, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent
 from noqx.rule.shape import OMINOES, all_shapes, general_shape
 
@@ -27,6 +27,7 @@ class TriplaceSolver(Solver):
         sums: List[Tuple[int, List[Tuple[int, int]], str]] = []
         for (r, c, d, pos), num in puzzle.text.items():
             validate_direction(r, c, d)
+            validate_type(pos, ("sudoku_1", "sudoku_2"))
             if pos == "sudoku_1" and isinstance(num, int):
                 area_points: List[Tuple[int, int]] = []
                 cur = c + 1
-- 
2.43.0


From ea3e409d86e50de64f9ff2755c7803d2b64f2c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 51/63] fix: minarism: refuse signs that are not between two
 cells

---
 solver/minarism.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solver/minarism.py b/solver/minarism.py
index 2d9adb7..4833c87 100644
--- a/solver/minarism.py
+++ b/solver/minarism.py
@@ -32,6 +32,7 @@ class MinarismSolver(Solver):
         self.add_program_line(unique_num(_type="col", color="grid"))
 
         for (r, c, d, _), symbol_name in puzzle.symbol.items():
+            fail_false(d in (Direction.TOP, Direction.LEFT), f"The symbol at ({r}, {c}) should be placed between two cells.")
             if d == Direction.LEFT and c > 0 and symbol_name == "inequality__1":
                 self.add_program_line(f":- number({r}, {c}, N), number({r}, {c - 1}, N1), N < N1.")
 
@@ -46,6 +47,7 @@ class MinarismSolver(Solver):
 
         for (r, c, d, pos), num in puzzle.text.items():
             validate_type(pos, "normal")
+            fail_false(d != Direction.TOP_LEFT, f"The clue at ({r}, {c}) should be placed in a cell or between two cells.")
 
             if d == Direction.CENTER:
                 fail_false(isinstance(num, int), f"Clue at ({r}, {c}) must be an integer.")
-- 
2.43.0


From a1164405f552e535270e75c78d6f571a6f4541b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 52/63] fix: kazunori: refuse a number at a corner

---
 solver/kazunori.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/kazunori.py b/solver/kazunori.py
index 1b7db2d..91ff7fd 100644
--- a/solver/kazunori.py
+++ b/solver/kazunori.py
@@ -54,6 +54,7 @@ class KazunoriSolver(Solver):
 
         for (r, c, d, pos), num in puzzle.text.items():
             validate_type(pos, "normal")
+            fail_false(d != Direction.TOP_LEFT, f"The clue at ({r}, {c}) should be placed in a cell or between two cells.")
 
             if d == Direction.CENTER:
                 fail_false(isinstance(num, int), f"Clue at ({r}, {c}) must be an integer.")
-- 
2.43.0


From f5396534a9e9b2778f770c84800f294b94d3a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 53/63] fix: nuriuzu: refuse a circle at a corner

---
 solver/nuriuzu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/nuriuzu.py b/solver/nuriuzu.py
index 69c34a6..54fe0ab 100644
--- a/solver/nuriuzu.py
+++ b/solver/nuriuzu.py
@@ -44,6 +44,7 @@ class NuriuzuSolver(Solver):
             fail_false(symbol_name.startswith("circle_SS"), "Invalid symbol type.")
 
             # there are no category = 1 for nuriuzu, because it is conflicting with the no 2x2 white rule.
+            fail_false(d != Direction.TOP_LEFT, f"The symbol at ({r}, {c}) should not be placed at a corner.")
             if d == Direction.CENTER:
                 reachables.append((r, c))
                 self.add_program_line(nuriuzu_constraint(r * 2 + 1, c * 2 + 1, color="not black"))
-- 
2.43.0


From 446b3f54be7e5d8292eee633c502eeb0f74db0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 54/63] fix: tatamibari: refuse a clue that is no shape

---
 solver/tatamibari.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/tatamibari.py b/solver/tatamibari.py
index 8231b50..2c553c0 100644
--- a/solver/tatamibari.py
+++ b/solver/tatamibari.py
@@ -46,6 +46,7 @@ class TamamibariSolver(Solver):
         for (r, c, d, pos), clue in puzzle.text.items():
             validate_direction(r, c, d)
             validate_type(pos, "normal")
+            fail_false(clue in ("+", "-", "|", "?", " ", ""), f"Clue at ({r}, {c}) must be one of '+-|'.")
             self.add_program_line(f"clue({r}, {c}).")
             self.add_program_line(bulb_src_color_connected((r, c), color=None, adj_type="edge"))
 
-- 
2.43.0


From 347a42b68a73717ee5831a698576d24c57d6f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 55/63] fix: a superscript digit is no number: refuse it as
 other texts instead of failing to convert it

---
 noqx/puzzle/penpa.py | 2 +-
 solver/castle.py     | 2 +-
 solver/mines.py      | 2 +-
 solver/ncells.py     | 2 +-
 solver/starbattle.py | 2 +-
 solver/tetrochain.py | 2 +-
 solver/yajikazu.py   | 2 +-
 solver/yajilin.py    | 2 +-
 solver/yajitatami.py | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/noqx/puzzle/penpa.py b/noqx/puzzle/penpa.py
index 6d3a643..40cf1dd 100644
--- a/noqx/puzzle/penpa.py
+++ b/noqx/puzzle/penpa.py
@@ -45,7 +45,7 @@ PENPA_ABBREVIATIONS = [
 
 def int_or_str(data: Union[int, str]) -> Union[int, str]:
     """Convert the string to integer if possible."""
-    return int(data) if isinstance(data, int) or data.isdigit() else data
+    return int(data) if isinstance(data, int) or data.isdecimal() else data
 
 
 def style_convert(style: List[int]) -> int:
diff --git a/solver/castle.py b/solver/castle.py
index baab2e5..0011144 100644
--- a/solver/castle.py
+++ b/solver/castle.py
@@ -69,7 +69,7 @@ class CastleSolver(Solver):
 
             fail_false(isinstance(clue, str) and "_" in clue, "Please set all NUMBER to arrow sub and draw arrows.")
             num, d = clue.split("_")
-            fail_false(num.isdigit() and d.isdigit(), f"Invalid arrow or number clue at ({r}, {c}).")
+            fail_false(num.isdecimal() and d.isdecimal(), f"Invalid arrow or number clue at ({r}, {c}).")
             self.add_program_line(wall_length(r, c, int(d), int(num)))
 
         for (r, c, _, _), color in puzzle.surface.items():
diff --git a/solver/mines.py b/solver/mines.py
index 3baad3e..8208721 100644
--- a/solver/mines.py
+++ b/solver/mines.py
@@ -39,7 +39,7 @@ class MinesSolver(Solver):
 
         mine_count = puzzle.param["mine_count"]
         if mine_count:
-            fail_false(isinstance(mine_count, str) and mine_count.isdigit(), "Please provide a valid mine count.")
+            fail_false(isinstance(mine_count, str) and mine_count.isdecimal(), "Please provide a valid mine count.")
             self.add_program_line(count(int(mine_count), color="sun_moon__4", _type="grid"))
 
         for (r, c, d, _), symbol_name in puzzle.symbol.items():
diff --git a/solver/ncells.py b/solver/ncells.py
index b15905c..351502b 100644
--- a/solver/ncells.py
+++ b/solver/ncells.py
@@ -33,7 +33,7 @@ class NCellsSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
-        fail_false(str(puzzle.param["region_size"]).isdigit(), "Invalid region size.")
+        fail_false(str(puzzle.param["region_size"]).isdecimal(), "Invalid region size.")
         size = int(puzzle.param["region_size"])
         fail_false(size > 0, "Invalid region size.")
         fail_false(puzzle.row * puzzle.col % size == 0, "It's impossible to divide grid into regions of this size!")
diff --git a/solver/starbattle.py b/solver/starbattle.py
index 404ee25..76147c5 100644
--- a/solver/starbattle.py
+++ b/solver/starbattle.py
@@ -26,7 +26,7 @@ class StarBattleSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
-        fail_false(str(puzzle.param["stars"]).isdigit(), "Invalid star count.")
+        fail_false(str(puzzle.param["stars"]).isdecimal(), "Invalid star count.")
         num_stars = int(puzzle.param["stars"])
         self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(shade_c(color="star__2"))
diff --git a/solver/tetrochain.py b/solver/tetrochain.py
index b3b0248..a68c33e 100644
--- a/solver/tetrochain.py
+++ b/solver/tetrochain.py
@@ -54,7 +54,7 @@ class TetrochainSolver(Solver):
 
             fail_false(isinstance(clue, str) and "_" in clue, "Please set all NUMBER to arrow sub and draw arrows.")
             num, d = clue.split("_")
-            fail_false(num.isdigit() and d.isdigit(), f"Invalid arrow or number clue at ({r}, {c}).")
+            fail_false(num.isdecimal() and d.isdecimal(), f"Invalid arrow or number clue at ({r}, {c}).")
             self.add_program_line(yaji_count(int(num), (r, c), int(d), color="black"))
 
         for (r, c, _, _), color in puzzle.surface.items():
diff --git a/solver/yajikazu.py b/solver/yajikazu.py
index 51850f4..deff6a1 100644
--- a/solver/yajikazu.py
+++ b/solver/yajikazu.py
@@ -39,7 +39,7 @@ class YajiKazuSolver(Solver):
             validate_type(pos, "normal")
             fail_false(isinstance(clue, str) and "_" in clue, "Please set all NUMBER to arrow sub and draw arrows.")
             num, d = clue.split("_")
-            fail_false(num.isdigit() and d.isdigit(), f"Invalid arrow or number clue at ({r}, {c}).")
+            fail_false(num.isdecimal() and d.isdecimal(), f"Invalid arrow or number clue at ({r}, {c}).")
             self.add_program_line(yaji_count(int(num), (r, c), int(d), color="gray", unshade_clue=False))
 
         for (r, c, _, _), color in puzzle.surface.items():
diff --git a/solver/yajilin.py b/solver/yajilin.py
index 52bfaca..8a399cb 100644
--- a/solver/yajilin.py
+++ b/solver/yajilin.py
@@ -50,7 +50,7 @@ class YajilinSolver(Solver):
 
             fail_false(isinstance(clue, str) and "_" in clue, "Please set all NUMBER to arrow sub and draw arrows.")
             num, d = clue.split("_")
-            fail_false(num.isdigit() and d.isdigit(), f"Invalid arrow or number clue at ({r}, {c}).")
+            fail_false(num.isdecimal() and d.isdecimal(), f"Invalid arrow or number clue at ({r}, {c}).")
             self.add_program_line(yaji_count(int(num), (r, c), int(d), color="black"))
 
         for (r, c, _, _), color in puzzle.surface.items():
diff --git a/solver/yajitatami.py b/solver/yajitatami.py
index 575a2ff..5598ab7 100644
--- a/solver/yajitatami.py
+++ b/solver/yajitatami.py
@@ -73,7 +73,7 @@ class YajitatamiSolver(Solver):
             self.add_program_line(bulb_src_color_connected((r, c), color=None, adj_type="edge"))
             fail_false(isinstance(clue, str) and "_" in clue, "Please set all NUMBER to arrow sub and draw arrows.")
             num, d = clue.split("_")
-            fail_false(num.isdigit() and d.isdigit(), f"Invalid arrow or number clue at ({r}, {c}).")
+            fail_false(num.isdecimal() and d.isdecimal(), f"Invalid arrow or number clue at ({r}, {c}).")
             self.add_program_line(count_reachable_src(int(num), (r, c), main_type="bulb", color=None, adj_type="edge"))
             self.add_program_line(yaji_region_count(int(num) + 1, (r, c), int(d)))
 
-- 
2.43.0


From 413de98b2f6781d9eafa669f4f550863b033ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 56/63] fix: factors: no products for rooms without a clue,
 which no time limit stops in a large room

---
 solver/factors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/factors.py b/solver/factors.py
index 8ed63ef..db6fa2e 100644
--- a/solver/factors.py
+++ b/solver/factors.py
@@ -60,12 +60,12 @@ class FactorsSolver(Solver):
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge)
         for i, ar in enumerate(areas):
             self.add_program_line(area(_id=i, src_cells=ar))
-            self.add_program_line(area_product_aggregate(_id=i, src_cells=ar))
 
             for r, c in ar:
                 if Point(r, c, Direction.CENTER, "sudoku_0") in puzzle.text:
                     num = puzzle.text[Point(r, c, Direction.CENTER, "sudoku_0")]
                     fail_false(isinstance(num, int), f"Clue at ({r}, {c}) should be integer.")
+                    self.add_program_line(area_product_aggregate(_id=i, src_cells=ar))
                     self.add_program_line(f":- not area_product({i}, {len(ar) - 1}, {num}).")
                     self.add_program_line(number_exclusion(int(num), grid_size=n, _id=i))
 
-- 
2.43.0


From bce015ea544db97b387ef90e313a312f1b86b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 57/63] fix: araf: say which clue is no number, whichever it is

---
 solver/araf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/araf.py b/solver/araf.py
index 15240d1..fe04733 100644
--- a/solver/araf.py
+++ b/solver/araf.py
@@ -61,7 +61,7 @@ class ArafSolver(Solver):
             for (r1, c1, d1, tp1), num1 in puzzle.text.items():
                 validate_direction(r1, c1, d1)
                 validate_type(tp1, "normal")
-                fail_false(isinstance(num, int), f"Clue at ({r}, {c}) must be an integer.")
+                fail_false(isinstance(num1, int), f"Clue at ({r1}, {c1}) must be an integer.")
                 if (r, c) == (r1, c1):
                     continue
 
-- 
2.43.0


From 1193cef645ef6739d29d114f6eaecb00252fbcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 58/63] fix: coral: refuse a clue that is no number

---
 solver/coral.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/solver/coral.py b/solver/coral.py
index 0cd4000..f6b3b18 100644
--- a/solver/coral.py
+++ b/solver/coral.py
@@ -5,7 +5,7 @@ from collections import Counter
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Puzzle
 from noqx.rule.common import display, grid, shade_c
-from noqx.rule.helper import validate_direction, validate_type
+from noqx.rule.helper import fail_false, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import border_color_connected, grid_color_connected
 from noqx.rule.shape import avoid_rect
@@ -39,9 +39,10 @@ class CoralSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
-        for (r, c, d, pos), _ in puzzle.text.items():
+        for (r, c, d, pos), clue in puzzle.text.items():
             validate_direction(r, c, d)
             validate_type(pos, "normal")
+            fail_false(isinstance(clue, int), f"Clue at ({r}, {c}) must be an integer.")
 
         top_clues = {}
         for c in range(puzzle.col):
-- 
2.43.0


From 92517ddcbf01bcdf97c9651d31de945581341e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 59/63] fix: nonogram: refuse a clue that is neither a number
 nor '?'

---
 solver/nonogram.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/solver/nonogram.py b/solver/nonogram.py
index af46841..fe467bb 100644
--- a/solver/nonogram.py
+++ b/solver/nonogram.py
@@ -5,7 +5,7 @@ from typing import Dict, Tuple, Union
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Puzzle
 from noqx.rule.common import display, shade_c
-from noqx.rule.helper import validate_direction, validate_type
+from noqx.rule.helper import fail_false, validate_direction, validate_type
 
 
 def nono_row(col: int, clues: Dict[int, Tuple[Union[int, str]]], color: str = "black"):
@@ -81,9 +81,10 @@ class NonogramSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
-        for (r, c, d, pos), _ in puzzle.text.items():
+        for (r, c, d, pos), clue in puzzle.text.items():
             validate_direction(r, c, d)
             validate_type(pos, "normal")
+            fail_false(isinstance(clue, int) or clue == "?", f"Clue at ({r}, {c}) must be an integer or '?'.")
 
         # clues of a line are listed in the order of their places, not in the order they are drawn
         clues = sorted(puzzle.text.items(), key=lambda item: (item[0].r, item[0].c))
-- 
2.43.0


From 1142aefc4f2a5120d832ec5b9f52ac7da85f73a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 60/63] fix: heyawake: refuse a limit that is no number

---
 solver/heyawake.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/heyawake.py b/solver/heyawake.py
index 3894e6a..6bfd042 100644
--- a/solver/heyawake.py
+++ b/solver/heyawake.py
@@ -5,7 +5,7 @@ from typing import Iterable, Tuple, Union
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, display, grid, shade_c
-from noqx.rule.helper import full_bfs, tag_encode, validate_direction, validate_type
+from noqx.rule.helper import fail_false, full_bfs, tag_encode, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent, avoid_adjacent_color
 from noqx.rule.reachable import grid_color_connected
 from noqx.rule.shape import avoid_rect
@@ -124,6 +124,10 @@ class HeyawakeSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
+        if puzzle.param["fast_mode"]:
+            fail_false(str(puzzle.param["limit_border"]).isdecimal(), "Please provide a valid border limit.")
+            fail_false(str(puzzle.param["limit_2x2"]).isdecimal(), "Please provide a valid 2x2 limit.")
+
         self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(shade_c("gray"))
         self.add_program_line(adjacent(_type=4))
-- 
2.43.0


From 1e702a8dd33849080f006e8ac492c9fdeb7dddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 61/63] fix: nagare, firefly: refuse a symbol in no known
 direction

---
 solver/firefly.py | 3 ++-
 solver/nagare.py  | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/firefly.py b/solver/firefly.py
index 07f942c..76e3d9e 100644
--- a/solver/firefly.py
+++ b/solver/firefly.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
 from noqx.rule.common import defined, direction, display, fill_path, grid
-from noqx.rule.helper import validate_direction, validate_type
+from noqx.rule.helper import fail_false, validate_direction, validate_type
 from noqx.rule.loop import convert_direction_to_edge, directed_loop
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import grid_color_connected
@@ -67,6 +67,7 @@ class FireflySolver(Solver):
             if shape != "firefly":  # pragma: no cover
                 continue  # warning: incompatible encoding with penpa+/puzz.link
 
+            fail_false(style in drdc, f"Invalid direction of the symbol at ({r}, {c}).")
             dr, dc = drdc[style]
             clue = puzzle.text.get(Point(r, c, Direction.TOP_LEFT, "normal"))  # the text is also placed in the top-left corner
 
diff --git a/solver/nagare.py b/solver/nagare.py
index 701a271..a65dde0 100644
--- a/solver/nagare.py
+++ b/solver/nagare.py
@@ -78,6 +78,7 @@ class NagareSolver(Solver):
         for (r, c, d, _), symbol_name in puzzle.symbol.items():
             validate_direction(r, c, d)
             shape, style = symbol_name.split("__")
+            fail_false(style in dict_dir, f"Invalid direction of the symbol at ({r}, {c}).")
             _d = dict_dir[style]
 
             if shape == "arrow_B_B":
-- 
2.43.0


From 07b96862f84be75a2518e3dbc72da89d0e0e3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 62/63] fix: bosanowa: refuse a max number that is no number

---
 solver/bosanowa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/bosanowa.py b/solver/bosanowa.py
index c2ff779..a6b50e4 100644
--- a/solver/bosanowa.py
+++ b/solver/bosanowa.py
@@ -32,6 +32,7 @@ class BosanowaSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
+        fail_false(str(puzzle.param["max_number"]).isdecimal(), "Please provide a valid max number.")
         lmt_num = int(puzzle.param["max_number"])
         self.add_program_line(defined(item="hole"))
         self.add_program_line(grid(puzzle.row, puzzle.col, with_holes=True))
-- 
2.43.0


From fa7d400502a2ea9444480b26a4bf83d5819d8167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 63/63] fix: clingo: expand recursive aggregates, without which
 answers of some boards are lost

With asp.eq = 0 and the dynamic transformation clasp reports no answer for
some compass boards with large areas (about 1 of 300 boards of 6 x 7 and
more); the same programs give the answer with trans_ext = scc.
---
 noqx/clingo.py    | 2 +-
 penpa-edit/app.js | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/noqx/clingo.py b/noqx/clingo.py
index 757fbf9..ac4756d 100644
--- a/noqx/clingo.py
+++ b/noqx/clingo.py
@@ -42,7 +42,7 @@ class ClingoSolver:
     def solve(self, program: str):
         """Solve the problem."""
         self.clingo_instance.configuration.sat_prepro = 2
-        self.clingo_instance.configuration.asp.trans_ext = "dynamic"  # type: ignore
+        self.clingo_instance.configuration.asp.trans_ext = "scc"  # type: ignore
         self.clingo_instance.configuration.asp.eq = 0  # type: ignore
         self.clingo_instance.configuration.solve.parallel_mode = Config.parallel_threads  # type: ignore
         self.clingo_instance.configuration.solve.models = Config.max_solutions_to_find  # type: ignore
diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index ea958b0..4718a15 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -294,7 +294,7 @@ $(window).on("load", function () {
             throw new Error(program.get("result"));
           }
 
-          const options = "--sat-prepro --trans-ext=dynamic --eq=0 --models=10 --project=show";
+          const options = "--sat-prepro --trans-ext=scc --eq=0 --models=10 --project=show";
           const result = await clingo.run(program.get("result"), options);
 
           if (result.Result === "ERROR") {
-- 
2.43.0

