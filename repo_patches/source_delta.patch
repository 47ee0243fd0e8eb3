From 0816e023c2678637a5a7e219316d70d5e3452da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 01/57] fix: store computed 3BV, openings and islands in the
 Board cache

A second query (or a 3BV query after an openings query) returned 0.
---
 base/src/board.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index 12f2280..1029cfa 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -209,22 +209,25 @@ impl Board {
             self.openings = cal_op(&self.board);
             self.has_cal_openings = true;
         }
+        self.bbbv = a + self.openings;
         self.has_cal_bbbv = true;
-        return a + self.openings;
+        return self.bbbv;
     }
     pub fn get_op(&mut self) -> usize {
         if self.has_cal_openings {
             return self.openings;
         }
+        self.openings = cal_op(&self.board);
         self.has_cal_openings = true;
-        return cal_op(&self.board);
+        return self.openings;
     }
     pub fn get_isl(&mut self) -> usize {
         if self.has_cal_islands {
             return self.islands;
         }
+        self.islands = cal_isl(&self.board);
         self.has_cal_islands = true;
-        return cal_isl(&self.board);
+        return self.islands;
     }
     fn cal_cell_nums(&mut self) {
         let ans = cal_cell_nums(&self.board);
-- 
2.43.0


From d5fbe3fb66d21cb0efd2453ae308986b2c32f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 02/57] fix: iterating a SafeBoardRow yields cell values, not
 internal codes

---
 base/src/safe_board.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 72a6a88..cc2d54c 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -170,9 +170,9 @@ impl Iterator for SafeBoardRow {
                 self.value_1[self.counter],
                 self.value_2[self.counter],
                 self.value_3[self.counter],
-            );
+            ) as usize;
             self.counter += 1;
-            Some(t)
+            Some(self.table[t])
         } else {
             None
         }
-- 
2.43.0


From b9569e86bfef3c551c245652120fc7742bfe518f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 03/57] fix: enumeration finds certain mines among equivalent
 cells

The per-cell count was compared with the case count times the size of the
merged cell, so a merged cell of two or more certain mines was never reported.
---
 base/src/algorithms.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 608f86a..f1e6d28 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -606,8 +606,7 @@ pub fn solve_enumerate(
                 for kk in &comb_relp_s[i][jj] {
                     not_mine.push(xs[i][*kk]);
                 }
-            } else if s_num == table_minenum_i[1].iter().sum::<usize>() * comb_relp_s[i][jj].len()
-            {
+            } else if s_num == table_minenum_i[1].iter().sum::<usize>() {
                 for kk in &comb_relp_s[i][jj] {
                     is_mine.push(xs[i][*kk]);
                 }
-- 
2.43.0


From 5f48e24f5ac5dbc8ac2982db16f26ddf4c78f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 04/57] fix: a mine ratio below the number of marked mines no
 longer underflows

---
 base/src/algorithms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index f1e6d28..b1996fa 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -296,7 +296,7 @@ pub fn cal_possibility(
     let minenum = if minenum < 1.0 {
         let mn = ((board_of_game.len() * board_of_game[0].len()) as f64 * minenum) as usize;
         min(
-            max(mn - is_minenum, min_minenum),
+            max(mn.saturating_sub(is_minenum), min_minenum),
             max_minenum + unknow_block,
         )
     } else {
-- 
2.43.0


From 55ca9ac727581896b78a8238e919e7236b4ea734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 05/57] fix: report the true maximum mine total when few mines
 are left

---
 base/src/algorithms.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index b1996fa..4c22ed8 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -308,6 +308,8 @@ pub fn cal_possibility(
         }
     };
 
+    // 与雷数无关的最大雷数
+    let max_minenum_total = max_minenum + is_minenum + unknow_block;
     max_minenum = min(max_minenum, minenum);
     if max_minenum < min_minenum {
         return Err(3); // 这种错误，例如一共10个雷，却出现了3个不相邻的5
@@ -411,7 +413,7 @@ pub fn cal_possibility(
         [
             min_minenum + is_minenum,
             minenum + is_minenum,
-            max_minenum + is_minenum + unknow_block,
+            max_minenum_total,
         ],
         exceed_len,
     ))
-- 
2.43.0


From 684e62d50d3e6a92de3c3782ebcc15876fd90c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 06/57] fix: report an error instead of NaN when no layout fits
 the mine total

---
 base/src/algorithms.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 4c22ed8..7a4039d 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -379,6 +379,9 @@ pub fn cal_possibility(
         T.add_big_number(&t);
     }
     // 第五步，计算局面总情况数
+    if T.a == 0.0 {
+        return Err(3); // 没有任何一种埋雷方案符合总雷数，例如雷数多于未知格子数
+    }
 
     for i in 0..block_num {
         for cells_id in 0..comb_relp_s[i].len() {
-- 
2.43.0


From 0164b6a174c903991611a1a20ed887d19ae9e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 07/57] fix: is_guess_while_needless judges the given cell, not
 a border cell of its group

---
 base/src/algorithms.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 7a4039d..ddf24c4 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1341,10 +1341,11 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
     }
     let mut flag_need;
     let (mut Ases, mut xses, mut bses) = refresh_matrixses(&board_of_game);
-    if let (Some(xy), flag_border) = find_a_border_cell(board_of_game, xy) {
+    if let (Some(border_xy), flag_border) = find_a_border_cell(board_of_game, xy) {
+        // border_xy只用来找到所在的块，结论必须针对xy本身
         let t = xses
             .iter()
-            .position(|r| r.iter().any(|x| x.contains(&xy)))
+            .position(|r| r.iter().any(|x| x.contains(&border_xy)))
             .unwrap();
         let As = &mut Ases[t];
         let xs = &mut xses[t];
-- 
2.43.0


From e3a26b829eb2829f1b73084af3e2a660b9e70870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 08/57] fix: refresh_matrixses puts every segment in exactly
 one group

---
 base/src/utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 001bb21..129b697 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -385,6 +385,10 @@ pub fn refresh_matrixses(
 
         while !buffer.is_empty() {
             let t = buffer.pop().unwrap();
+            if As[t].is_empty() {
+                // 已经归入当前组
+                continue;
+            }
             Ases.last_mut().unwrap().push(vec![]);
             Ases.last_mut()
                 .unwrap()
@@ -403,7 +407,7 @@ pub fn refresh_matrixses(
                 .last_mut()
                 .unwrap()
                 .append(&mut bs[t]);
-            for idj in t..As.len() {
+            for idj in 0..As.len() {
                 if adjacency_matrix[t][idj] {
                     buffer.push(idj);
                 }
-- 
2.43.0


From d4916ba821010a22154cf857fbcdc121c1554d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 09/57] fix: contradictory boards are reported as errors by the
 solvers, not panics

---
 base/src/algorithms.rs | 7 ++++---
 base/src/utils.rs      | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index ddf24c4..b1a3032 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -196,9 +196,10 @@ pub fn solve_direct(
             xs.remove(b);
         }
     }
-    let ans = bs.iter().find(|&b| match b.iter().find(|&&x| x < 0) {
-        Some(_) => return true,
-        None => return false,
+    let ans = bs.iter().zip(As.iter()).find(|(b, a)| {
+        b.iter()
+            .zip(a.iter())
+            .any(|(&x, row)| x < 0 || x > row.iter().sum::<i32>())
     });
     match ans {
         Some(_) => return Err(6),
diff --git a/base/src/utils.rs b/base/src/utils.rs
index 129b697..c860253 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1007,6 +1007,10 @@ fn cal_table_minenum_recursion_step(
                 lower_limit_i -= combination_relationship[*j].len() as i32;
             }
         }
+        if upper_limit_i < 0 {
+            // 数字周围标出的雷已经超过该数字，此分支无解
+            return Ok(false);
+        }
         if upper_limit_i < upper_limit as i32 {
             upper_limit = upper_limit_i as usize;
         }
-- 
2.43.0


From 616a200c2637b50b921bca3f28dcd9def030c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 10/57] fix: an opening counts as solved 3BV once, when all its
 zero cells are open

---
 base/src/videos/minesweeper_board.rs | 34 ++++++++++++----------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index e85f783..a94adb6 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -176,11 +176,9 @@ impl<T> MinesweeperBoard<T> {
         // refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
         match self.board[x][y] {
             0 => {
-                if self.cell_is_op_completed(x, y, &mut vec![vec![false; self.column]; self.row]) {
-                    self.bbbv_solved += 1;
-                }
                 self.ce += 1;
                 refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
+                self.bbbv_solved += self.op_num_completed(&vec![(x, y)]);
                 if self.is_win() {
                     self.game_board_state = GameBoardState::Win;
                 }
@@ -293,8 +291,8 @@ impl<T> MinesweeperBoard<T> {
             }
             self.ce += 1;
             self.bbbv_solved += surround3BV;
-            self.bbbv_solved += self.op_num_around_cell(x, y);
-            refresh_board(&self.board, &mut self.game_board, chording_cells);
+            refresh_board(&self.board, &mut self.game_board, chording_cells.clone());
+            self.bbbv_solved += self.op_num_completed(&chording_cells);
             // if flag_ch_op {
             //     if self.cell_is_op_completed(surround_op_x, surround_op_y) {
             //         self.bbbv_solved += 1;
@@ -327,29 +325,26 @@ impl<T> MinesweeperBoard<T> {
         }
         true
     }
-    // 在传入格子上双击以后，将新打开的（完整）op数。（已打开的不算）
-    // 这个格子不是雷、双击是合法的
-    // 只可能返回0，1，2
-    fn op_num_around_cell(&self, x: usize, y: usize) -> usize
+    // 刚刚（左键或双击）打开了传入的格子，返回因此完全打开的op数
+    // 必须在刷新局面以后调用
+    fn op_num_completed(&self, cells: &Vec<(usize, usize)>) -> usize
     where
         T: std::ops::Index<usize> + BoardSize,
         T::Output: std::ops::Index<usize, Output = i32>,
     {
         let mut op_num = 0;
         let mut game_board_mark = vec![vec![false; self.column]; self.row];
-        for i in max(1, x) - 1..min(self.row, x + 2) {
-            for j in max(1, y) - 1..min(self.column, y + 2) {
-                if self.game_board[i][j] == 10 && self.board[i][j] == 0 && !game_board_mark[i][j] {
-                    if self.cell_is_op_completed(i, j, &mut game_board_mark) {
-                        op_num += 1;
-                    }
+        for &(i, j) in cells {
+            if self.board[i][j] == 0 && !game_board_mark[i][j] {
+                if self.cell_is_op_completed(i, j, &mut game_board_mark) {
+                    op_num += 1;
                 }
             }
         }
         op_num
     }
 
-    // 是局面上能够完全打开的op（在游戏局面上是没有打开的状态，点下后能够完全打开）
+    // 是局面上已经完全打开的op
     // 这是为了防范一种特殊情况，在空上面右击标雷使得空打开的时候不能完全打开；没有完全打开的空，不应计入3bv。
     fn cell_is_op_completed(&self, x: usize, y: usize, game_board_mark: &mut Vec<Vec<bool>>) -> bool
     where
@@ -357,14 +352,15 @@ impl<T> MinesweeperBoard<T> {
         T::Output: std::ops::Index<usize, Output = i32>,
     {
         // let mut game_board_mark = vec![vec![false; self.column]; self.row];
+        let mut is_completed = true;
         let mut poses = vec![(x, y)];
         while let Some(top) = poses.pop() {
             let (i, j) = top;
             if self.board[i][j] > 0 {
                 continue;
             } else if self.board[i][j] == 0 {
-                if self.game_board[i][j] == 11 {
-                    return false;
+                if self.game_board[i][j] != 0 {
+                    is_completed = false;
                 }
                 game_board_mark[i][j] = true;
                 for m in max(1, i) - 1..min(self.row, i + 2) {
@@ -377,7 +373,7 @@ impl<T> MinesweeperBoard<T> {
             } else {
             }
         }
-        true
+        is_completed
     }
     /// 返回的值的含义是：0：没有任何作用的操作，例如左键数字、踩雷。  
     /// 1：推进了局面，但没有改变ai对局面的判断，特指标雷。  
-- 
2.43.0


From cae225420aafe530e590fe61f790f77027784ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 11/57] fix: taking back all pre-game flags clears the
 effective click count too

---
 base/src/videos/minesweeper_board.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index a94adb6..a45e7da 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -534,11 +534,7 @@ impl<T> MinesweeperBoard<T> {
                                 self.pre_flag_num -= 1;
                                 if self.pre_flag_num == 0 {
                                     self.game_board_state = GameBoardState::Ready;
-                                    self.flag = 0;
-                                    self.flagedList.clear();
-                                    self.double = 0;
-                                    self.left = 0;
-                                    self.right = 0;
+                                    self.clear_click_num();
                                     self.game_board[pos.0][pos.1] = 10;
                                     return Ok(0);
                                 } else {
@@ -843,6 +839,7 @@ impl<T> MinesweeperBoard<T> {
         self.double = 0;
         self.left = 0;
         self.right = 0;
+        self.ce = 0;
     }
 }
 
-- 
2.43.0


From 148cca322dcd14dc961d1cc7c8e3c0a2997efa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 12/57] fix: button events outside the board neither panic nor
 miscount

---
 base/src/videos/minesweeper_board.rs | 34 ++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index a45e7da..ac5f8c2 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -423,10 +423,13 @@ impl<T> MinesweeperBoard<T> {
                     return Ok(0);
                 }
                 "pf" => {
-                    assert!(
-                        self.game_board[pos.0][pos.1] == 10,
-                        "按定义，pf不能在标雷上执行。请报告这个奇怪的录像。"
-                    );
+                    // 按定义，pf不能在标雷上、局面外执行
+                    if pos.0 >= self.row
+                        || pos.1 >= self.column
+                        || self.game_board[pos.0][pos.1] != 10
+                    {
+                        return Err(());
+                    }
                     self.pre_flag_num += 1;
                     self.game_board_state = GameBoardState::PreFlaging;
                     return self.right_click(pos.0, pos.1);
@@ -515,10 +518,13 @@ impl<T> MinesweeperBoard<T> {
                     _ => return Err(()),
                 },
                 "pf" => {
-                    assert!(
-                        self.game_board[pos.0][pos.1] == 10,
-                        "按定义，pf不能在标雷上执行。请报告这个奇怪的录像。"
-                    );
+                    // 按定义，pf不能在标雷上、局面外执行
+                    if pos.0 >= self.row
+                        || pos.1 >= self.column
+                        || self.game_board[pos.0][pos.1] != 10
+                    {
+                        return Err(());
+                    }
                     self.pre_flag_num += 1;
                     return self.right_click(pos.0, pos.1);
                 }
@@ -660,7 +666,8 @@ impl<T> MinesweeperBoard<T> {
                         }
                         return self.right_click(pos.0, pos.1);
                     } else {
-                        self.mouse_state = MouseState::UpDownNotFlag;
+                        // 局面外按下右键不计数，因此之后的双击也不需要扣除
+                        self.mouse_state = MouseState::UpDown;
                     }
                 }
                 MouseState::DownUp => self.mouse_state = MouseState::Chording,
@@ -716,6 +723,10 @@ impl<T> MinesweeperBoard<T> {
                 }
                 // 以下情况其实是不可能的
                 MouseState::UpUp => {
+                    if pos.0 == self.row && pos.1 == self.column {
+                        self.mouse_state = MouseState::UpDown;
+                        return Ok(0);
+                    }
                     if self.game_board[pos.0][pos.1] < 10 {
                         self.mouse_state = MouseState::UpDownNotFlag;
                     } else {
@@ -733,11 +744,14 @@ impl<T> MinesweeperBoard<T> {
             }
             "mr" => {
                 self.middle_hold = false;
+                if pos.0 == self.row && pos.1 == self.column {
+                    return Ok(0);
+                }
                 return self.chording_click(pos.0, pos.1);
             }
             "m" => {
                 self.middle_hold = !self.middle_hold;
-                if !self.middle_hold {
+                if !self.middle_hold && (pos.0 < self.row && pos.1 < self.column) {
                     return self.chording_click(pos.0, pos.1);
                 }
             }
-- 
2.43.0


From b5a1229b91e6f2efc58c3a6472e7ed50466d9267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 13/57] fix: a game that ends with its first click starts its
 clock at that click

---
 base/src/videos/base_video.rs | 40 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 766973c..cf93239 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -800,6 +800,27 @@ impl<T> BaseVideo<T> {
 
         let a = self.minesweeper_board.step(e, (x, y))?;
         self.game_board_state = self.minesweeper_board.game_board_state;
+        // 游戏可能在第一次左键抬起时就直接结束（一击必胜或踩雷），此时也要记录游戏开始的时间
+        if old_state != GameBoardState::Playing
+            && (self.game_board_state == GameBoardState::Playing
+                || self.game_board_state == GameBoardState::Loss
+                || self.game_board_state == GameBoardState::Win)
+        {
+            if old_state == GameBoardState::Ready {
+                self.video_start_instant = step_instant;
+                time_ms = time_ms_between(step_instant, self.video_start_instant);
+                time = time_ms as f64 / 1000.0;
+            }
+            self.game_start_ms = time_ms;
+            // 高精度的时间戳，单位为微秒
+            // https://doc.rust-lang.org/std/time/struct.Instant.html
+            self.start_time = SystemTime::now()
+                .duration_since(UNIX_EPOCH)
+                .unwrap()
+                .as_micros()
+                .to_string()
+                .into_bytes();
+        }
         match self.game_board_state {
             GameBoardState::Ready => {
                 self.game_board_stream.clear();
@@ -813,24 +834,7 @@ impl<T> BaseVideo<T> {
                     time = time_ms as f64 / 1000.0;
                 }
             }
-            GameBoardState::Playing => {
-                if old_state != GameBoardState::Playing {
-                    if old_state == GameBoardState::Ready {
-                        self.video_start_instant = step_instant;
-                        time_ms = time_ms_between(step_instant, self.video_start_instant);
-                        time = time_ms as f64 / 1000.0;
-                    }
-                    self.game_start_ms = time_ms;
-                    // 高精度的时间戳，单位为微秒
-                    // https://doc.rust-lang.org/std/time/struct.Instant.html
-                    self.start_time = SystemTime::now()
-                        .duration_since(UNIX_EPOCH)
-                        .unwrap()
-                        .as_micros()
-                        .to_string()
-                        .into_bytes();
-                }
-            }
+            GameBoardState::Playing => {}
             // 不可能
             GameBoardState::Display => {}
             GameBoardState::Loss => {
-- 
2.43.0


From 63ccee44e3ee86deaed7ef416e6fb89b31926c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 14/57] fix: the running clock is rounded like the start time,
 so it never underflows

---
 base/src/videos/base_video.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index cf93239..85782b9 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1159,7 +1159,7 @@ impl<T> BaseVideo<T> {
             GameBoardState::Playing => {
                 let now = Instant::now();
                 // return now.duration_since(self.game_start_instant).as_millis() as f64 / 1000.0;
-                let time_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let time_ms = time_ms_between(now, self.video_start_instant);
                 return (time_ms - self.game_start_ms) as f64 / 1000.0;
             }
             GameBoardState::PreFlaging => {
@@ -1446,7 +1446,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_left() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1466,7 +1466,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_right() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1486,7 +1486,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_double() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1506,7 +1506,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_cl() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1526,7 +1526,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_flag() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
-- 
2.43.0


From 7d80e9d7c6ab113a351e289b1daa214bcb90203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 15/57] fix: the board shown after a fatal left click is part
 of the recording

---
 base/src/videos/base_video.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 85782b9..a5d5804 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -474,7 +474,10 @@ impl BaseVideo<Vec<Vec<i32>>> {
                     .unwrap();
                 // println!("{:?}, {:?}", svi.mouse, b.game_board);
                 svi.useful_level = u_level;
-                if u_level >= 1 {
+                // 左键踩雷的返回值是0，但局面同样发生了改变
+                let is_loss_now = old_state != GameBoardState::Loss
+                    && b.game_board_state == GameBoardState::Loss;
+                if u_level >= 1 || is_loss_now {
                     let mut g_b = GameBoard::new(self.mine_num);
                     g_b.set_game_board(&b.game_board);
                     self.game_board_stream.push(g_b);
@@ -910,7 +913,8 @@ impl<T> BaseVideo<T> {
         // self.current_time = time;
         let prior_game_board_id;
         let next_game_board_id;
-        if a >= 1 {
+        // 左键踩雷的返回值是0，但局面同样发生了改变
+        if a >= 1 || self.game_board_state == GameBoardState::Loss {
             let mut g_b = GameBoard::new(self.mine_num);
             g_b.set_game_board(&self.minesweeper_board.game_board);
             self.game_board_stream.push(g_b);
-- 
2.43.0


From c792a1e5c30d3ba2f7233237d604b5386a66806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 16/57] fix: mouse events outside the board leave the travelled
 path unchanged

---
 base/src/videos/base_video.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index a5d5804..4daa68e 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -877,7 +877,12 @@ impl<T> BaseVideo<T> {
         }
         // 维护path，挺复杂的
         let mut path = 0.0;
-        if old_state == GameBoardState::Playing {
+        if old_state == GameBoardState::Playing
+            && (x >= self.minesweeper_board.row || y >= self.minesweeper_board.column)
+        {
+            // 局面外的操作没有真实的坐标，路径不变
+            path = self.get_path();
+        } else if old_state == GameBoardState::Playing {
             let mut outside_skip = self.video_action_state_recorder.len() - 1;
             loop {
                 let p = &self.video_action_state_recorder[outside_skip];
-- 
2.43.0


From 8a990eaefef33fb7f340a4d9167db59734933093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 17/57] fix: set_checksum works before the data is generated
 and when called again

---
 base/src/videos/base_video.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 4daa68e..1852b4e 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1375,20 +1375,22 @@ impl<T> BaseVideo<T> {
         {
             return Err(());
         };
-        if !self.has_checksum {
-            *self.raw_data.last_mut().unwrap() = 0;
-            self.raw_data
-                .append(&mut checksum.clone().to_vec().to_owned());
-            self.checksum = checksum;
-            self.has_checksum = true;
-            return Ok(0);
-        } else {
-            let ptr = self.raw_data.len() - 32;
-            for i in 0..32 {
-                self.raw_data[ptr + i] = checksum[i];
+        // 若已经生成二进制数据，则同步修改末尾的checksum；否则生成时会写入
+        if !self.raw_data.is_empty() {
+            if !self.has_checksum {
+                *self.raw_data.last_mut().unwrap() = 0;
+                self.raw_data
+                    .append(&mut checksum.clone().to_vec().to_owned());
+            } else {
+                let ptr = self.raw_data.len() - 32;
+                for i in 0..32 {
+                    self.raw_data[ptr + i] = checksum[i];
+                }
             }
-            return Ok(0);
         }
+        self.checksum = checksum;
+        self.has_checksum = true;
+        Ok(0)
     }
     pub fn get_raw_data(&self) -> Result<Vec<u8>, ()> {
         if self.game_board_state != GameBoardState::Win
-- 
2.43.0


From 151baa6bdc32231f11587d877630714b29330fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 18/57] fix: a loaded recording keeps its checksum when it is
 saved again

---
 base/src/videos/base_video.rs | 2 +-
 base/src/videos/evf_video.rs  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 1852b4e..eb537bd 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -327,7 +327,7 @@ pub struct BaseVideo<T> {
     // 允许设置最终成绩，解析录像文件时用
     allow_set_rtime: bool,
     // 是否有checksum
-    has_checksum: bool,
+    pub(crate) has_checksum: bool,
     // 播放录像文件时用，按几倍放大来播放，涉及回报的鼠标位置
     video_playing_pix_size_k: f64,
 }
diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 1ffba40..4a9c64d 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -202,6 +202,7 @@ impl EvfVideo {
             }
         }
         self.data.checksum = csum;
+        self.data.has_checksum = have_checksum;
         self.data.can_analyse = true;
         return Ok(());
     }
-- 
2.43.0


From 5d5bcb5f2a617e366fd4f523a22a26a1e0432d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 19/57] fix: seeking to the exact time of an event always
 includes that event

---
 base/src/videos/base_video.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index eb537bd..0c99c3e 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1217,7 +1217,7 @@ impl<T> BaseVideo<T> {
     }
     /// 录像播放时，按时间设置current_time；超出两端范围取两端。
     /// 游戏时不要调用。
-    pub fn set_current_time(&mut self, mut time: f64) {
+    pub fn set_current_time(&mut self, time: f64) {
         self.current_time = time;
         if self.current_time < self.get_video_start_time().unwrap() {
             self.current_time = self.get_video_start_time().unwrap()
@@ -1225,15 +1225,17 @@ impl<T> BaseVideo<T> {
         if self.current_time > self.get_video_end_time().unwrap() {
             self.current_time = self.get_video_end_time().unwrap()
         }
-        time += self.delta_time;
-        if time > self.video_action_state_recorder[self.current_event_id].time {
+        // 和set_current_event_id里current_time的算法保持一致，恰好等于事件的时间时，包含该事件
+        let time = self.current_time;
+        let delta_time = self.delta_time;
+        if self.video_action_state_recorder[self.current_event_id].time - delta_time <= time {
             loop {
                 if self.current_event_id >= self.video_action_state_recorder.len() - 1 {
                     // 最后一帧
                     break;
                 }
                 self.current_event_id += 1;
-                if self.video_action_state_recorder[self.current_event_id].time <= time {
+                if self.video_action_state_recorder[self.current_event_id].time - delta_time <= time {
                     continue;
                 } else {
                     self.current_event_id -= 1;
@@ -1246,7 +1248,7 @@ impl<T> BaseVideo<T> {
                     break;
                 }
                 self.current_event_id -= 1;
-                if self.video_action_state_recorder[self.current_event_id].time > time {
+                if self.video_action_state_recorder[self.current_event_id].time - delta_time > time {
                     continue;
                 } else {
                     break;
-- 
2.43.0


From 405330d9a1ba6cc3b70f05a7c76a92ccf21b76b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 20/57] fix: seeking to an event number beyond the recording is
 refused

---
 base/src/videos/base_video.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 0c99c3e..8ea2cbe 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1263,6 +1263,9 @@ impl<T> BaseVideo<T> {
         if self.game_board_state != GameBoardState::Display {
             return Err(());
         };
+        if id >= self.video_action_state_recorder.len() {
+            return Err(());
+        }
         self.current_event_id = id;
         self.current_time = self.video_action_state_recorder[id].time - self.delta_time;
         Ok(0)
-- 
2.43.0


From 9d5e52b4f682eac59d5b0c7f6601d4190167bdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 21/57] fix: rqp, qg and ce per second of a finished live game
 use its final time

---
 base/src/videos/base_video.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 8ea2cbe..f830f56 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1632,14 +1632,20 @@ impl<T> BaseVideo<T> {
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(2.0) / bbbv_solved as f64)
+        if self.game_board_state == GameBoardState::Display {
+            return Ok(self.current_time.powf(2.0) / bbbv_solved as f64);
+        }
+        Ok(self.game_dynamic_params.rtime.powf(2.0) / bbbv_solved as f64)
     }
     pub fn get_qg(&self) -> Result<f64, ()> {
         let bbbv_solved = self.get_bbbv_solved()?;
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(1.7) / bbbv_solved as f64)
+        if self.game_board_state == GameBoardState::Display {
+            return Ok(self.current_time.powf(1.7) / bbbv_solved as f64);
+        }
+        Ok(self.game_dynamic_params.rtime.powf(1.7) / bbbv_solved as f64)
     }
     pub fn get_ce(&self) -> Result<usize, ()> {
         match self.game_board_state {
@@ -1657,10 +1663,13 @@ impl<T> BaseVideo<T> {
     }
     pub fn get_ce_s(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-        if self.current_time < 0.00099 {
-            return Ok(0.0);
+        if self.game_board_state == GameBoardState::Display {
+            if self.current_time < 0.00099 {
+                return Ok(0.0);
+            }
+            return Ok(ce as f64 / self.current_time);
         }
-        Ok(ce as f64 / self.current_time)
+        Ok(ce as f64 / self.game_dynamic_params.rtime)
     }
     pub fn get_corr(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-- 
2.43.0


From 886884a79d7f63d984927bce488e6fb034b3a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 22/57] fix: MinesweeperBoard::reset forgets pre-flags and a
 held middle button

---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index ac5f8c2..4b53d70 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -142,6 +142,8 @@ impl MinesweeperBoard<Vec<Vec<i32>>> {
         self.game_board_state = GameBoardState::Ready;
         self.pointer_x = 0;
         self.pointer_y = 0;
+        self.pre_flag_num = 0;
+        self.middle_hold = false;
     }
 }
 
-- 
2.43.0


From e61767734376f86a10df76dbd15dd860b894b94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 23/57] fix: BaseVideo::reset forgets everything about the
 previous game

---
 base/src/videos/base_video.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index f830f56..1c2ffe5 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -442,6 +442,22 @@ impl BaseVideo<Vec<Vec<i32>>> {
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
         self.game_board_state = GameBoardState::Ready;
+        self.board = vec![vec![0; column]; row];
+        self.mine_num = 0;
+        self.level = 0;
+        self.is_completed = false;
+        self.is_offical = false;
+        self.is_fair = false;
+        self.nf = false;
+        self.delta_time = 0.0;
+        self.current_time = 0.0;
+        self.current_event_id = 0;
+        self.start_time.clear();
+        self.end_time.clear();
+        self.offset = 0;
+        self.checksum = [0; 32];
+        self.has_checksum = false;
+        self.can_analyse = false;
     }
     /// 进行局面的推衍，计算基本的局面参数，记录所有中间过程。不包含概率计算。
     /// - 对于avf录像，必须analyse以后才能正确获取是否扫完。
@@ -648,6 +664,23 @@ impl BaseVideo<SafeBoard> {
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
         self.game_board_state = GameBoardState::Ready;
+        self.board = SafeBoard::new(vec![vec![0; column]; row]);
+        self.mine_num = 0;
+        self.level = 0;
+        self.is_completed = false;
+        self.is_offical = false;
+        self.is_fair = false;
+        self.nf = false;
+        self.game_start_ms = 0;
+        self.delta_time = 0.0;
+        self.current_time = 0.0;
+        self.current_event_id = 0;
+        self.start_time.clear();
+        self.end_time.clear();
+        self.offset = 0;
+        self.checksum = [0; 32];
+        self.has_checksum = false;
+        self.can_analyse = false;
     }
     /// 两种情况调用：游戏开始前、可猜模式（尺寸相等，雷数不检查）
     pub fn set_board(&mut self, board: Vec<Vec<i32>>) -> Result<u8, ()> {
-- 
2.43.0


From b3f25e33205591028410584e9a84bf018d866073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 24/57] fix: every position beyond the board counts as outside
 for the state machine

---
 base/src/videos/minesweeper_board.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 4b53d70..08f08c3 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -404,6 +404,12 @@ impl<T> MinesweeperBoard<T> {
         //         _ => {}
         //     }
         // }
+        // 局面外的任何位置，统一视为(row, column)
+        let pos = if pos.0 < self.row && pos.1 < self.column {
+            pos
+        } else {
+            (self.row, self.column)
+        };
         match self.game_board_state {
             GameBoardState::Ready => match e {
                 "mv" => {
-- 
2.43.0


From 2d709975ff77504ca33505bf29e8cdcf29114790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 25/57] fix: the path of a replay is counted from the game
 start, like the live path

---
 base/src/videos/base_video.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 1c2ffe5..c5faa4b 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -476,8 +476,8 @@ impl BaseVideo<Vec<Vec<i32>>> {
             // 控制svi的生命周期
             let svi = &mut self.video_action_state_recorder[ide];
             svi.prior_game_board_id = self.game_board_stream.len() - 1;
+            let old_state = b.game_board_state;
             if svi.mouse != "mv" {
-                let old_state = b.game_board_state;
                 // println!("{:?}, {:?}", svi.mouse, svi.y);
                 let u_level = b
                     .step(
@@ -515,10 +515,11 @@ impl BaseVideo<Vec<Vec<i32>>> {
             svi.key_dynamic_params.op_solved = 0;
             svi.key_dynamic_params.isl_solved = 0;
             let svi = &self.video_action_state_recorder[ide];
+            // 和游戏时一致，从游戏开始的那一刻起计算路径
             // 第一下操作不可能是在局面外的
-            if b.game_board_state == GameBoardState::Playing
-                || b.game_board_state == GameBoardState::Win
-                || b.game_board_state == GameBoardState::Loss
+            if old_state == GameBoardState::Playing
+                || old_state == GameBoardState::Win
+                || old_state == GameBoardState::Loss
             {
                 if svi.y >= self.height as u16 * self.cell_pixel_size as u16
                     && svi.x >= self.width as u16 * self.cell_pixel_size as u16
-- 
2.43.0


From 0383029b844ae6f04c895d3e1a0f94f5ece320c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 26/57] fix: is_good_chording looks at the right neighbour only
 when there is one

---
 base/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index c860253..1b3e67a 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1741,7 +1741,7 @@ pub fn is_good_chording(board_of_game: &Vec<Vec<i32>>, pos: (usize, usize)) -> b
             return false;
         }
     }
-    if pos.1 < column + 1 {
+    if pos.1 + 1 < column {
         if mid_num < surround_cell_num(board_of_game, (pos.0, pos.1 + 1)) {
             return false;
         }
-- 
2.43.0


From efa4dd2ed3633b9ebc6d2213f7be3a7cdd0460e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 27/57] fix: counting the openings of a large empty board does
 not exhaust the stack

---
 base/src/utils.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 1b3e67a..d5abe06 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -47,10 +47,15 @@ fn infect_board(board: &mut Vec<Vec<i32>>, x: usize, y: usize) {
     let row = board.len();
     let column = board[0].len();
     board[x][y] = 1;
-    for i in max(1, x) - 1..min(row, x + 2) {
-        for j in max(1, y) - 1..min(column, y + 2) {
-            if board[i][j] == 0 {
-                infect_board(board, i, j);
+    // 不用递归，很大的空会耗尽栈空间
+    let mut buffer = vec![(x, y)];
+    while let Some((x, y)) = buffer.pop() {
+        for i in max(1, x) - 1..min(row, x + 2) {
+            for j in max(1, y) - 1..min(column, y + 2) {
+                if board[i][j] == 0 {
+                    board[i][j] = 1;
+                    buffer.push((i, j));
+                }
             }
         }
     }
-- 
2.43.0


From 1c156ecff07f4ad3c01007e467adbba70e49c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 28/57] fix: a damaged AVF recording is reported as an error
 instead of a panic

---
 base/src/videos/avf_video.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/avf_video.rs b/base/src/videos/avf_video.rs
index 3c58127..1587423 100644
--- a/base/src/videos/avf_video.rs
+++ b/base/src/videos/avf_video.rs
@@ -106,6 +106,12 @@ impl AvfVideo {
         for _ in 0..self.data.mine_num {
             let c = self.data.get_u8()? as usize;
             let d = self.data.get_u8()? as usize;
+            if c < 1 || c > self.data.height || d < 1 || d > self.data.width {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
+            if self.data.board[c - 1][d - 1] == -1 {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[c - 1][d - 1] = -1;
         }
 
@@ -190,7 +196,10 @@ impl AvfVideo {
         }
         s = str::replace(&s, ",", "."); // 有些录像小数点是逗号
         match s.parse::<f64>() {
-            Ok(v) => self.data.set_rtime(v - 1.0).unwrap(),
+            Ok(v) => self
+                .data
+                .set_rtime(v - 1.0)
+                .map_err(|_| ErrReadVideoReason::InvalidParams)?,
             Err(_) => return Err(ErrReadVideoReason::InvalidParams),
         };
         let mut buffer = [0u8; 8];
-- 
2.43.0


From 941503c81aa706958fcbbfb8132aaf4515c36a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 29/57] fix: a damaged EVF recording is reported as an error
 instead of a panic

---
 base/src/videos/evf_video.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 4a9c64d..9cd0dbb 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -49,6 +49,9 @@ impl EvfVideo {
         self.data.is_fair = the_byte & 0b0010_0000 != 0;
         self.data.height = self.data.get_u8()? as usize;
         self.data.width = self.data.get_u8()? as usize;
+        if self.data.height == 0 || self.data.width == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.mine_num = self.data.get_u16()? as usize;
         if self.data.height == 8 && self.data.width == 8 && self.data.mine_num == 10 {
             self.data.level = 3;
@@ -61,10 +64,15 @@ impl EvfVideo {
         }
         // println!("{:?}", self.data.mine_num);
         self.data.cell_pixel_size = self.data.get_u8()?;
+        if self.data.cell_pixel_size == 0 {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         self.data.mode = self.data.get_u16()?;
         self.data.static_params.bbbv = self.data.get_u16()? as usize;
         let t = self.data.get_u24()?;
-        self.data.set_rtime(t as f64 / 1000.0).unwrap();
+        self.data
+            .set_rtime(t as f64 / 1000.0)
+            .map_err(|_| ErrReadVideoReason::InvalidParams)?;
         // for i in 0..500{
         //     for j in 0..8 {
         //         let a = self.data.get_u8()?;
@@ -146,6 +154,10 @@ impl EvfVideo {
                 }
             }
         }
+        let board_mine_num = self.data.board.iter().flatten().filter(|&&x| x == -1).count();
+        if board_mine_num != self.data.mine_num {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         cal_board_numbers(&mut self.data.board);
         let have_checksum;
 
@@ -179,7 +191,7 @@ impl EvfVideo {
                     have_checksum = false;
                     break;
                 }
-                _ => mouse = "ub", // 不可能
+                _ => return Err(ErrReadVideoReason::InvalidVideoEvent),
             }
             let time = self.data.get_u24()? as f64 / 1000.0;
             let x = self.data.get_u16()?;
@@ -194,6 +206,9 @@ impl EvfVideo {
                     ..VideoActionStateRecorder::default()
                 });
         }
+        if self.data.video_action_state_recorder.is_empty() {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         let mut csum = [0; 32];
         if have_checksum {
             for i in 0..32 {
-- 
2.43.0


From 19b7c6f2b34160836f7f438340c235bfa9473aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 30/57] fix: a damaged RMV recording is reported as an error
 instead of a panic

---
 base/src/videos/rmv_video.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index 4de14b6..ec04f67 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -101,7 +101,7 @@ impl RmvVideo {
             // 2 beta和更早的版本里没有3bv和时间戳
         } else {
             self.data.static_params.bbbv = 0;
-            for _ in 0..result_string_size - 3 {
+            for _ in 0..result_string_size.saturating_sub(3) {
                 self.data.get_u8()?;
             }
         }
@@ -147,6 +147,10 @@ impl RmvVideo {
         self.data.height = self.data.get_u8()?.into();
         self.data.mine_num = self.data.get_u16()?.into();
 
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
+
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         // Every 2 bytes is x,y with 0,0 being the top left corner
@@ -156,6 +160,9 @@ impl RmvVideo {
             if c >= self.data.width || d >= self.data.height {
                 return Err(ErrReadVideoReason::InvalidMinePosition);
             }
+            if self.data.board[d][c] == -1 {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[d][c] = -1;
         }
         cal_board_numbers(&mut self.data.board);
@@ -183,9 +190,12 @@ impl RmvVideo {
             false
         };
         self.data.mode = self.data.get_u8()? as u16;
-        self.data.level = self.data.get_u8()? + 3;
+        self.data.level = match self.data.get_u8()? {
+            level @ 0..=3 => level + 3,
+            _ => return Err(ErrReadVideoReason::InvalidLevel),
+        };
 
-        self.data.offset += (properties_size - 4) as usize;
+        self.data.offset += properties_size.saturating_sub(4) as usize;
 
         // 是不是第一个操作。录像里省略了第一个左键按下。
         let mut first_op_flag = true;
@@ -243,9 +253,13 @@ impl RmvVideo {
                 return Err(ErrReadVideoReason::InvalidParams);
             }
         }
+        let rtime = match self.data.video_action_state_recorder.last() {
+            Some(event) => event.time,
+            None => return Err(ErrReadVideoReason::InvalidParams),
+        };
         self.data
-            .set_rtime(self.data.video_action_state_recorder.last().unwrap().time)
-            .unwrap();
+            .set_rtime(rtime)
+            .map_err(|_| ErrReadVideoReason::InvalidParams)?;
         self.data.software = "Viennasweeper".as_bytes().to_vec();
         self.data.can_analyse = true;
         return Ok(());
-- 
2.43.0


From 96212270b2a377fc31dfeae07b6933c06a8da414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 31/57] fix: a damaged or unsupported MVF recording is reported
 as an error instead of a panic

---
 base/src/videos/mvf_video.rs | 38 ++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index c37a8a9..b447a73 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -44,14 +44,22 @@ impl MvfVideo {
         // int board_sz,i,pos;
         self.data.width = self.data.get_u8()?.into();
         self.data.height = self.data.get_u8()?.into();
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         self.data.mine_num = self.data.get_u16()?.into();
         for _ in 0..self.data.mine_num {
-            let w = (self.data.get_u8()? as i32 + add) as usize;
-            let h = (self.data.get_u8()? as i32 + add) as usize;
-            // 要检查
-            self.data.board[h][w] = -1;
+            let w = self.data.get_u8()? as i32 + add;
+            let h = self.data.get_u8()? as i32 + add;
+            if w < 0 || h < 0 || w as usize >= self.data.width || h as usize >= self.data.height {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
+            if self.data.board[h as usize][w as usize] == -1 {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
+            self.data.board[h as usize][w as usize] = -1;
         }
         cal_board_numbers(&mut self.data.board);
         Ok(())
@@ -116,7 +124,10 @@ impl MvfVideo {
         let _second = self.data.get_u8()?;
 
         // //Next 2 bytes are Level and Mode
-        self.data.level = self.data.get_u8()? + 2;
+        self.data.level = match self.data.get_u8()? {
+            level @ 1..=4 => level + 2,
+            _ => return Err(ErrReadVideoReason::InvalidLevel),
+        };
         let mode = self.data.get_u8()?;
         if mode == 1 {
             self.data.mode = 0;
@@ -131,7 +142,9 @@ impl MvfVideo {
         // 下面3 bytes 是时间
         let score_sec = self.data.get_u16()? as f64;
         let score_ths = self.data.get_u8()? as f64 / 100.0;
-        self.data.set_rtime(score_sec + score_ths).unwrap();
+        self.data
+            .set_rtime(score_sec + score_ths)
+            .map_err(|_| ErrReadVideoReason::InvalidParams)?;
 
         // 下面 11 bytes 只有 Clone 0.97有
         self.data.static_params.bbbv = self.data.get_u16()?.into();
@@ -204,6 +217,9 @@ impl MvfVideo {
         // println!("s: {:?}, byte: {:?}, bit: {:?}", s, byte, bit);
 
         let event_size = self.data.get_u24()?;
+        if event_size == 0 {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         let mut prev_rb;
         let mut prev_mb;
         let mut prev_lb;
@@ -302,7 +318,6 @@ impl MvfVideo {
         Ok(())
     }
     pub fn parse_video(&mut self) -> Result<(), ErrReadVideoReason> {
-        self.data.can_analyse = true;
         // self.data.is_completed; // 该格式解析前不能确定是否扫完
         self.data.is_offical = true;
         self.data.is_fair = true;
@@ -316,12 +331,15 @@ impl MvfVideo {
                 //Clone 0.97
                 self.data.offset += 46;
                 self.data.software = "0.97 beta".as_bytes().to_vec();
-                return self.read_097();
-            } else {
+                self.read_097()?;
+                self.data.can_analyse = true;
                 Ok(())
+            } else {
+                // 其他版本尚不能解析
+                Err(ErrReadVideoReason::InvalidParams)
             }
         } else {
-            Ok(())
+            Err(ErrReadVideoReason::InvalidParams)
         }
     }
 }
-- 
2.43.0


From 246baffce0ebec81f24b2ef8330df186f3059aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 32/57] fix: analysing and browsing an odd recording does not
 panic

---
 base/src/videos/analyse_methods.rs |  6 ++++--
 base/src/videos/base_video.rs      | 18 +++++++++++-------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 04a12f0..7a55cd7 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -273,6 +273,8 @@ pub fn analyse_super_fl_local(video: &mut BaseVideo<Vec<Vec<i32>>>) {
         // }
 
         if video.video_action_state_recorder[ide].mouse == "rc"
+            && x < video.height
+            && y < video.width
             && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
             && video.video_action_state_recorder[ide].useful_level == 1
         {
@@ -346,8 +348,8 @@ pub fn analyse_super_fl_local(video: &mut BaseVideo<Vec<Vec<i32>>>) {
                 }
             }
         }
-        if (x as i32 - x_1 as i32) * (x as i32 - x_1 as i32)
-            + (y as i32 - y_1 as i32) * (y as i32 - y_1 as i32)
+        if (x as i64 - x_1 as i64) * (x as i64 - x_1 as i64)
+            + (y as i64 - y_1 as i64) * (y as i64 - y_1 as i64)
             > euclidean_distance
         {
             match state {
diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index c5faa4b..1ccb636 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -487,7 +487,7 @@ impl BaseVideo<Vec<Vec<i32>>> {
                             (svi.x / self.cell_pixel_size as u16) as usize,
                         ),
                     )
-                    .unwrap();
+                    .unwrap_or(0); // 录像中不合法的操作没有任何效果
                 // println!("{:?}, {:?}", svi.mouse, b.game_board);
                 svi.useful_level = u_level;
                 // 左键踩雷的返回值是0，但局面同样发生了改变
@@ -1168,11 +1168,11 @@ impl<T> BaseVideo<T> {
         let mut id = self.current_event_id;
         loop {
             if self.video_action_state_recorder[id].useful_level < 2 {
-                id -= 1;
-                if id <= 0 {
+                if id == 0 {
                     let p = self.mine_num as f64 / (self.height * self.width) as f64;
-                    return vec![vec![p; self.height]; self.width];
+                    return vec![vec![p; self.width]; self.height];
                 }
+                id -= 1;
             } else {
                 // println!("{:?}, {:?}",self.current_event_id, self.video_action_state_recorder.len());
                 return self.game_board_stream[self.video_action_state_recorder
@@ -1784,8 +1784,8 @@ impl<T> BaseVideo<T> {
         if self.game_board_state != GameBoardState::Display {
             return Err(());
         };
-        let mut k = 0;
-        loop {
+        // 此前的所有事件都在局面外，则没有坐标
+        for k in 0..=self.current_event_id {
             if self.video_action_state_recorder[self.current_event_id - k].x
                 < self.cell_pixel_size as u16 * self.width as u16
             {
@@ -1796,8 +1796,8 @@ impl<T> BaseVideo<T> {
                         * self.video_playing_pix_size_k) as u16,
                 ));
             }
-            k += 1;
         }
+        Err(())
     }
     // 返回录像文件里记录的方格尺寸。flop_new播放器里会用到。这是因为元扫雷和flop播放器的播放机制不同。
     pub fn get_pix_size(&self) -> Result<u8, ()> {
@@ -1980,6 +1980,10 @@ impl<T> BaseVideo<T> {
         if self.software == "Arbiter".as_bytes().to_vec() {
             // 对于arbiter，开源界没有鉴定的能力，只能追溯
         } else if self.software == "Viennasweeper".as_bytes().to_vec() {
+            if self.start_time.len() != 10 || !self.start_time.iter().all(|c| c.is_ascii_digit()) {
+                // 2 beta和更早的版本里没有时间戳，报不确定
+                return 3;
+            }
             let start_time = ((self.start_time[0] - 48) as u64) * 1000000000
                 + ((self.start_time[1] - 48) as u64) * 100000000
                 + ((self.start_time[2] - 48) as u64) * 10000000
-- 
2.43.0


From a8f9538eb0397e481d487e044fbbd6f08693b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 33/57] fix: flags placed before an RMV game are read as
 column, row

---
 base/src/videos/rmv_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index ec04f67..d409447 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -176,8 +176,8 @@ impl RmvVideo {
                     .video_action_state_recorder
                     .push(VideoActionStateRecorder {
                         mouse: "pf".to_string(),
-                        x: d * 16,
-                        y: c * 16,
+                        x: c * 16,
+                        y: d * 16,
                         ..VideoActionStateRecorder::default()
                     });
             }
-- 
2.43.0


From 0e763b0bc19f38c3882d80aff1658f9cb60bc4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 34/57] fix: the second sample of an MVF recording is compared
 with the first position

---
 base/src/videos/mvf_video.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index b447a73..7704930 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -232,8 +232,8 @@ impl MvfVideo {
         // println!("rb: {:?}, mb: {:?}, lb: {:?}", rb, mb, lb);
         let mut x = 0u16;
         let mut y = 0u16;
-        let mut prev_x = 0u16;
-        let mut prev_y = 0u16;
+        let mut prev_x;
+        let mut prev_y;
         let mut ths = 0;
         let mut sec = 0;
         let mouse;
@@ -268,6 +268,8 @@ impl MvfVideo {
                 y,
                 ..VideoActionStateRecorder::default()
             });
+        prev_x = x;
+        prev_y = y;
         for _ in 0..event_size - 1 {
             for ii in 0..5 {
                 e[ii] = self.data.get_u8()?;
-- 
2.43.0


From c66a6ad3ea7d29132c634033ea22c121c8b867d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 35/57] fix: a position object reports the mines found by
 enumeration

---
 base/src/board.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index 1029cfa..ea54899 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -90,15 +90,7 @@ impl GameBoard {
                 }
             }
         }
-        self.enum_not_mine = solve_enumerate(&a_s, &x_s, &b_s).0;
-        // println!("yyyyyyyyyyyyyyyyy");
-        for i in 0..self.game_board_marked.len() {
-            for j in 0..self.game_board_marked[0].len() {
-                if self.game_board_marked[i][j] == 11 && !self.basic_is_mine.contains(&(i, j)) {
-                    self.enum_is_mine.push((i, j));
-                }
-            }
-        }
+        (self.enum_not_mine, self.enum_is_mine) = solve_enumerate(&a_s, &x_s, &b_s);
         self.is_marked = true;
     }
     pub fn get_poss(&mut self) -> &Vec<Vec<f64>> {
-- 
2.43.0


From d7036db16a69ce84fbd3664af3f9a94b75f778bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 36/57] fix: a position object given another board forgets the
 results of the previous one

---
 base/src/board.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/src/board.rs b/base/src/board.rs
index ea54899..eeb6572 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -63,6 +63,13 @@ impl GameBoard {
         }
         self.game_board = board.clone();
         self.game_board_marked = game_board_marked;
+        // 换了局面，之前的结果全部作废
+        self.is_marked = false;
+        self.has_poss = false;
+        self.basic_not_mine.clear();
+        self.basic_is_mine.clear();
+        self.enum_not_mine.clear();
+        self.enum_is_mine.clear();
     }
     fn mark(&mut self) {
         // 一旦被标记，那么就会用3大判雷引擎都分析一遍
-- 
2.43.0


From b85cd2f540382eb3a50f2269863289d52ae9270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 37/57] fix: laymine_op works on boards with a single row or
 column

---
 base/src/utils.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index d5abe06..354b019 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -518,18 +518,8 @@ pub fn laymine_op(
     X0: usize,
     Y0: usize,
 ) -> Vec<Vec<i32>> {
-    let mut areaOp = 9;
-    if X0 == 0 || Y0 == 0 || X0 == row - 1 || Y0 == column - 1 {
-        if X0 == 0 && Y0 == 0
-            || X0 == 0 && Y0 == column - 1
-            || X0 == row - 1 && Y0 == 0
-            || X0 == row - 1 && Y0 == column - 1
-        {
-            areaOp = 4;
-        } else {
-            areaOp = 6;
-        }
-    }
+    // 起手位置周围的格子数，包括起手位置。局面可能只有一行或一列
+    let areaOp = (min(row, X0 + 2) - (max(1, X0) - 1)) * (min(column, Y0 + 2) - (max(1, Y0) - 1));
     let area = row * column - areaOp;
     let mut board1_dim = vec![0; area - minenum];
     board1_dim.append(&mut vec![-1; minenum]);
-- 
2.43.0


From 8fe4af0bed4ba648ffbb789712a71bb9b64bd553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 38/57] fix: a replay counts the path like the live game when
 the mouse leaves the board over one edge only

---
 base/src/videos/base_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 1ccb636..9fe42fe 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -522,7 +522,7 @@ impl BaseVideo<Vec<Vec<i32>>> {
                 || old_state == GameBoardState::Loss
             {
                 if svi.y >= self.height as u16 * self.cell_pixel_size as u16
-                    && svi.x >= self.width as u16 * self.cell_pixel_size as u16
+                    || svi.x >= self.width as u16 * self.cell_pixel_size as u16
                 {
                     self.video_action_state_recorder[ide].path =
                         self.video_action_state_recorder[ide - 1].path;
@@ -537,7 +537,7 @@ impl BaseVideo<Vec<Vec<i32>>> {
                         svi_1_x = svis.x;
                         svi_1_path = svis.path;
                         if svi_1_y >= self.height as u16 * self.cell_pixel_size as u16
-                            && svi_1_x >= self.width as u16 * self.cell_pixel_size as u16
+                            || svi_1_x >= self.width as u16 * self.cell_pixel_size as u16
                         {
                             skip += 1;
                             continue;
-- 
2.43.0


From ef78dc7cda9df56af6428ff3a1ed1e126b11fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:43 +0000
Subject: [PATCH 39/57] fix: the cursor of a replay stays on the board when the
 mouse leaves it over the lower edge

---
 base/src/videos/base_video.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 9fe42fe..2f5983a 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1788,6 +1788,8 @@ impl<T> BaseVideo<T> {
         for k in 0..=self.current_event_id {
             if self.video_action_state_recorder[self.current_event_id - k].x
                 < self.cell_pixel_size as u16 * self.width as u16
+                && self.video_action_state_recorder[self.current_event_id - k].y
+                    < self.cell_pixel_size as u16 * self.height as u16
             {
                 return Ok((
                     (self.video_action_state_recorder[self.current_event_id - k].x as f64
-- 
2.43.0


From 7caebb488e647635991707bff70a18d2fd7d72d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 40/57] fix: a protected board that was iterated can be
 iterated again after it is set

---
 base/src/safe_board.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index cc2d54c..b7d4210 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -121,6 +121,7 @@ impl SafeBoard {
             safe_board.push(SafeBoardRow::new(row));
         }
         self.value = safe_board;
+        self.counter = 0;
     }
 }
 
-- 
2.43.0


From 9018dc03e8366d62444a7ce1d860746dbe8df376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 41/57] fix: laymine_solvable_thread reports the success of any
 thread, not the first message

---
 base/src/algorithms.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index b1a3032..e751705 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -750,7 +750,14 @@ pub fn laymine_solvable_thread(
     for handle in handles {
         handle.join().unwrap();
     }
-    let received = rx.recv().unwrap(); // 尝试次数仅仅为单个线程的次数，并不准
+    let mut received = rx.recv().unwrap(); // 尝试次数仅仅为单个线程的次数，并不准
+    // 先收到的可能是没有成功的线程的局面。只要有一个线程成功，就返回成功的局面
+    while !received.1 {
+        match rx.try_recv() {
+            Ok(r) => received = r,
+            Err(_) => break,
+        }
+    }
     for i in 0..row {
         for j in 0..column {
             game_board[i][j] = received.0[i][j];
-- 
2.43.0


From 1d4a43cf78332a7047992d529d123185865e2bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 42/57] fix: is_solvable does not panic on boards smaller than
 the templates

---
 base/src/algorithms.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index e751705..30cf491 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -642,12 +642,13 @@ fn isVictory(board_of_game: &Vec<Vec<i32>>, Board: &Vec<Vec<i32>>) -> bool {
 /// - 注意：周围一圈都是雷，那么若中间是雷不算猜，若中间不是雷算有猜。  
 /// - 注意：不考虑剩余雷数。
 pub fn is_solvable(board: &Vec<Vec<i32>>, x0: usize, y0: usize) -> bool {
-    if unsolvable_structure(&board) {
+    let row = board.len();
+    let column = board[0].len();
+    // 模板的长、宽最大为4，更小的局面无法套用
+    if row >= 4 && column >= 4 && unsolvable_structure(&board) {
         //若包含不可判雷结构，则不是无猜
         return false;
     }
-    let row = board.len();
-    let column = board[0].len();
     let mut board_of_game = vec![vec![10; column]; row];
     // 10是未打开，11是标雷
     // 局面大小必须超过6*6
-- 
2.43.0


From f2d44926c95b3ef013e67c5ef142a4baf1064897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 43/57] fix: laymine_solvable_adjust works on boards with a
 single row or column

---
 base/src/algorithms.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 30cf491..457eec1 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -816,18 +816,8 @@ pub fn laymine_solvable_adjust(
 ) -> (Vec<Vec<i32>>, bool) {
     // 利用局面调整算法，无猜埋雷
     let mut board;
-    let mut area_op = 9;
-    if x0 == 0 || y0 == 0 || x0 == row - 1 || y0 == column - 1 {
-        if x0 == 0 && y0 == 0
-            || x0 == 0 && y0 == column - 1
-            || x0 == row - 1 && y0 == 0
-            || x0 == row - 1 && y0 == column - 1
-        {
-            area_op = 4;
-        } else {
-            area_op = 6;
-        }
-    }
+    // 起手位置周围的格子数，包括起手位置。局面可能只有一行或一列
+    let area_op = (min(row, x0 + 2) - (max(1, x0) - 1)) * (min(column, y0 + 2) - (max(1, y0) - 1));
     if row * column - area_op < minenum {
         // 雷数太多以致起手无法开空，此时放弃无猜，返回任意一种局面
         let t = laymine(row, column, minenum, x0, y0);
-- 
2.43.0


From 3de5194aa4ac3da94652ef524476f0cfdf082a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 44/57] fix: laymine_solvable_adjust reports success only for
 boards that are guess-free

---
 base/src/algorithms.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 457eec1..fb57278 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -884,6 +884,8 @@ pub fn laymine_solvable_adjust(
             }
         }
     }
+    // 递归部分只看局部，局面是否真的无猜在此确认
+    let flag = is_solvable(&b, x0, y0);
     (b, flag)
 }
 
-- 
2.43.0


From a0e1e58fd40aeeeaf109f0832c4a0a9803346627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 45/57] fix: sample_3BVs_exp samples all n boards when n is not
 a multiple of 16

---
 base/src/algorithms.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index fb57278..0c22d3c 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1076,9 +1076,10 @@ fn adjust_the_area_on_board(
 pub fn sample_3BVs_exp(x0: usize, y0: usize, n: usize) -> [usize; 382] {
     // 从标准高级中采样计算3BV
     // 16线程计算
-    let n0 = n / 16;
     let mut threads = vec![];
-    for _i in 0..16 {
+    for i in 0..16 {
+        // 除不尽时，前几个线程各多算一局
+        let n0 = n / 16 + if i < n % 16 { 1 } else { 0 };
         let join_item = thread::spawn(move || -> [usize; 382] { laymine_study_exp(x0, y0, n0) });
         threads.push(join_item);
     }
-- 
2.43.0


From 1bbb02b4f189a9842aa202c6c9afd8a8de0e79d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 46/57] fix: sample_3BVs_exp counts the 3BV of each board, not
 an overestimate of its openings

---
 base/src/algorithms.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 0c22d3c..dadc958 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1,5 +1,5 @@
 use crate::utils::{
-    cal_bbbv_exp, cal_table_minenum_recursion, chunk_matrixes,
+    cal_bbbv, cal_table_minenum_recursion, chunk_matrixes,
     combine, find_a_border_cell, laymine, laymine_op, legalize_board,
     refresh_board, refresh_matrixs, refresh_matrixses, unsolvable_structure,
     BigNumber, C,
@@ -1130,7 +1130,7 @@ fn laymine_study_exp(x0: usize, y0: usize, n: usize) -> [usize; 382] {
                 }
             }
         }
-        bv_record[cal_bbbv_exp(&board)] += 1;
+        bv_record[cal_bbbv(&board)] += 1;
     }
     bv_record
 }
-- 
2.43.0


From 431bbb2d70c77e7c98ee2492645d913aa7c694c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 47/57] hook: threads, locks and channels can be driven by a
 checker (cfg vp_mc)

---
 base/src/algorithms.rs | 2 ++
 base/src/lib.rs        | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index dadc958..88dbdfa 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -25,6 +25,8 @@ use rand::prelude::*;
 
 
 
+#[cfg(vp_mc)]
+use crate::vp_std as std;
 use std::cmp::{max, min};
 use std::sync::mpsc;
 use std::sync::{Arc, Mutex};
diff --git a/base/src/lib.rs b/base/src/lib.rs
index aca8a09..74b611a 100644
--- a/base/src/lib.rs
+++ b/base/src/lib.rs
@@ -29,6 +29,13 @@
 // cargo publish --features rs
 // 需要换成官方的源，不能用镜像
 // cargo yank --vers 0.0.1
+// Only for the checker of the guarantees of this crate (--cfg vp_mc): std with observable threads.
+#[cfg(vp_mc)]
+#[doc(hidden)]
+pub mod vp_std {
+    include!(env!("VP_STD_RS"));
+}
+
 mod utils;
 pub use utils::{
     cal_bbbv, cal_op, cal_isl, cal_table_minenum_recursion, combine, laymine, laymine_op, refresh_board,
-- 
2.43.0


From 4e6c117a54f0ab2e52864ad03af96bf95a4721a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 48/57] fix: laymine_solvable_adjust ends: bounded number of
 steps, then starts again

---
 base/src/algorithms.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 88dbdfa..4fc0a92 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -848,14 +848,22 @@ pub fn laymine_solvable_adjust(
             }
         }
     }
-    // 开始递归求解
-    let (mut b, flag) = adjust_step(
-        &board,
-        &board_of_game,
-        &cells_plan_to_click,
-        remain_minenum,
-        remain_not_minenum,
-    );
+    // 开始递归求解。一次递归的步数有限，否则可能几乎不会结束；失败以后重新开始
+    let (mut b, mut flag) = (vec![], false);
+    for _ in 0..20 {
+        let mut remain_steps = 200;
+        (b, flag) = adjust_step(
+            &board,
+            &board_of_game,
+            &cells_plan_to_click,
+            remain_minenum,
+            remain_not_minenum,
+            &mut remain_steps,
+        );
+        if flag {
+            break;
+        }
+    }
     // println!("+++++");
     // b.iter().for_each(|i| {
     //     i.iter()
@@ -905,7 +913,12 @@ fn adjust_step(
     plan_click: &Vec<(usize, usize)>, // 当前计划点开的格子，递归部分要保证点开后，局面是有解开的可能的
     remain_minenum: usize,           // 当前还要埋的雷数
     remain_not_minenum: usize,       // 当前还要埋的非雷数
+    remain_steps: &mut usize,        // 还允许递归的步数
 ) -> (Vec<Vec<i32>>, bool) {
+    if *remain_steps == 0 {
+        return (vec![], false);
+    }
+    *remain_steps -= 1;
     let mut b = board.clone(); // 克隆一个board的备份
     let mut bg = board_of_game.clone(); // 克隆一个board_of_game的备份
                                         // let mut pc = plan_click.clone();
@@ -1024,7 +1037,7 @@ fn adjust_step(
                 // pc.append(&mut n);
                 r -= minenum;
                 rn -= xs_cell_num - minenum;
-                let a = adjust_step(&b, &bg, &n, r, rn);
+                let a = adjust_step(&b, &bg, &n, r, rn, remain_steps);
                 if a.1 {
                     if !a.0.is_empty() {
                         return (a.0, true);
-- 
2.43.0


From aaf316853a595beca3fbc3195d1f748156c026f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 49/57] fix: laymine_solvable_adjust lays exactly the asked
 number of mines and opens every safe cell

---
 base/src/algorithms.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 4fc0a92..6910883 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -949,7 +949,7 @@ fn adjust_step(
         .iter_mut()
         .for_each(|p| p.retain(|x| b[x.0][x.1] == -10));
     if front_xs_0[0].is_empty() {
-        if rn > 0 {
+        if rn > 0 || !is_all_safe_opened(&b, &bg) {
             return (vec![], false);
         } else {
             return (b, true);
@@ -1031,7 +1031,8 @@ fn adjust_step(
                 i.iter().for_each(|x| bg[x.0][x.1] = 11);
                 // println!("当前步骤成功！");
                 // success_flag = true; // 当前步骤成功
-                if rn <= n.len() {
+                // 非雷都埋完了，而且都已经打开，剩下的全部是雷
+                if rn == xs_cell_num - minenum && is_all_safe_opened(&b, &bg) {
                     return (b.clone(), true);
                 }
                 // pc.append(&mut n);
@@ -1045,6 +1046,9 @@ fn adjust_step(
                 } else {
                     b = board.clone();
                     bg = board_of_game.clone();
+                    for (x, y) in plan_click.into_iter() {
+                        bg[*x][*y] = 1;
+                    }
                     r = remain_minenum;
                     rn = remain_not_minenum;
                     // continue 'inner;
@@ -1056,6 +1060,13 @@ fn adjust_step(
     return (vec![], false);
 }
 
+// 已经确定不是雷的格子，是否全部打开了
+fn is_all_safe_opened(board: &Vec<Vec<i32>>, board_of_game: &Vec<Vec<i32>>) -> bool {
+    let row = board.len();
+    let column = board[0].len();
+    (0..row).all(|i| (0..column).all(|j| board[i][j] != 0 || board_of_game[i][j] < 10))
+}
+
 // 在指定的局部（area_current_adjust）埋雷，不刷新board上的数字
 fn adjust_the_area_on_board(
     board: &mut Vec<Vec<i32>>,
-- 
2.43.0


From 7255603583744f000faf7095b787d34cd978e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:41 +0000
Subject: [PATCH 50/57] fix: the Python binding goes to an event through the
 library's checked call

Assigning current_event_id wrote the field directly: an event past the end was
accepted and every later reading failed, and the playback time, board and counters
stayed at those of the event before.
---
 python_package/src/avf_video.rs  | 2 +-
 python_package/src/base_video.rs | 2 +-
 python_package/src/evf_video.rs  | 2 +-
 python_package/src/mvf_video.rs  | 2 +-
 python_package/src/rmv_video.rs  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python_package/src/avf_video.rs b/python_package/src/avf_video.rs
index c42942f..f11ae73 100644
--- a/python_package/src/avf_video.rs
+++ b/python_package/src/avf_video.rs
@@ -305,7 +305,7 @@ impl PyAvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/base_video.rs b/python_package/src/base_video.rs
index 5fb2e2a..c8b1f4b 100644
--- a/python_package/src/base_video.rs
+++ b/python_package/src/base_video.rs
@@ -367,7 +367,7 @@ impl PyBaseVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.current_event_id = id
+        self.core.set_current_event_id(id).unwrap();
     }
     // 这个方法与强可猜、弱可猜、埋雷有关
     #[setter]
diff --git a/python_package/src/evf_video.rs b/python_package/src/evf_video.rs
index 9fc15a2..2bb4d28 100644
--- a/python_package/src/evf_video.rs
+++ b/python_package/src/evf_video.rs
@@ -305,7 +305,7 @@ impl PyEvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/mvf_video.rs b/python_package/src/mvf_video.rs
index 1492c1f..c8b8a52 100644
--- a/python_package/src/mvf_video.rs
+++ b/python_package/src/mvf_video.rs
@@ -305,7 +305,7 @@ impl PyMvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/rmv_video.rs b/python_package/src/rmv_video.rs
index 6051c7b..4231e14 100644
--- a/python_package/src/rmv_video.rs
+++ b/python_package/src/rmv_video.rs
@@ -305,7 +305,7 @@ impl PyRmvVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
-- 
2.43.0


From da7e55302292f1bb98ebf6c07d4ece625d88a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:41 +0000
Subject: [PATCH 51/57] fix: the JavaScript binding goes to an event through
 the library's checked call

Same defect as in the Python binding: the setter wrote the field directly, so the
playback time was not moved and an event past the end was accepted.
---
 wasm/src/board.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/board.rs b/wasm/src/board.rs
index a4aed12..f4b6bf8 100644
--- a/wasm/src/board.rs
+++ b/wasm/src/board.rs
@@ -404,7 +404,7 @@ macro_rules! generate_video {
                 }
                 #[wasm_bindgen(setter)]
                 pub fn set_current_event_id(&mut self, id: usize) {
-                    self.core.data.current_event_id = id
+                    self.core.data.set_current_event_id(id).unwrap();
                 }
                 #[wasm_bindgen(getter)]
                 pub fn get_game_board(&self) -> String {
-- 
2.43.0


From 124b7330488e8647afc371bdb270e6bcc2d61748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:01 +0000
Subject: [PATCH 52/57] fix: the luck of a game does not erase the other
 remarks on its last event

analyse_survive_poss overwrote the remarks that analyses run before it had left on
the last event, although their order is documented not to matter.
---
 base/src/videos/analyse_methods.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 7a55cd7..db21b5e 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -240,7 +240,8 @@ pub fn analyse_survive_poss(video: &mut BaseVideo<Vec<Vec<i32>>>) {
     } else {
         message.push_str("1;");
     }
-    video.video_action_state_recorder.last_mut().unwrap().comments = message;
+    // 最后一个事件可能已有其他分析方法的结论，不能覆盖
+    video.video_action_state_recorder.last_mut().unwrap().comments.push_str(&message);
 }
 
 #[derive(Debug, PartialEq)]
-- 
2.43.0


From 813fbe49a2c454fc596725751c8f3cfe02f3a7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:07 +0000
Subject: [PATCH 53/57] fix: needless_guess reports only guesses made while a
 safe cell could be deduced

Every guess was reported as made although the mines could be judged, including the
ones forced by a position where nothing can be deduced.
---
 base/src/videos/analyse_methods.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index db21b5e..8055d67 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -90,6 +90,13 @@ pub fn analyse_needless_guess(video: &mut BaseVideo<Vec<Vec<i32>>>) {
                 && !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
                     .get_enum_not_mine()
                     .contains(&(x, y))
+                // 没有可以判出的非雷时，是不得不猜
+                && !(video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
+                    .get_basic_not_mine()
+                    .is_empty()
+                    && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
+                        .get_enum_not_mine()
+                        .is_empty())
             {
                 video.video_action_state_recorder[ide].comments = format!(
                     "{}{}",
-- 
2.43.0


From 7a42fe4c258227c8ab2c467833b38cc537872794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:16 +0000
Subject: [PATCH 54/57] fix: taking a flag back is not reported as judging a
 mine

jump_judge looked at every right click of level 1, which includes the ones that remove a flag.
---
 base/src/videos/analyse_methods.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 8055d67..dd1afaa 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -58,7 +58,9 @@ pub fn analyse_jump_judge(video: &mut BaseVideo<Vec<Vec<i32>>>) {
                 );
             }
         } else if video.video_action_state_recorder[ide].useful_level == 1 && video.video_action_state_recorder[ide].mouse == "rc" {
-            if !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
+            // 取消标雷不是判雷
+            if video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
+                && !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
                 .get_basic_is_mine()
                 .contains(&(x, y))
                 && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
-- 
2.43.0


From bb79f0b1e845eeb722f50dcc0f9bed46f33d7730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:20 +0000
Subject: [PATCH 55/57] fix: a textbook flagging run that lasts to the end of
 the game is reported

The run was reported only when a later event broke it.
---
 base/src/videos/analyse_methods.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index dd1afaa..7276178 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -397,4 +397,12 @@ pub fn analyse_super_fl_local(video: &mut BaseVideo<Vec<Vec<i32>>>) {
         last_ide = ide;
         // println!("{:?}", video.video_action_state_recorder[last_ide].mouse_state);
     }
+    // 延续到游戏结束的局部
+    if state == SuperFLState::IsOk {
+        video.video_action_state_recorder[anchor].comments = format!(
+            "{}{}",
+            video.video_action_state_recorder[anchor].comments,
+            format!("feature: 教科书式的FL局部(步数{});", counter - last_rc_num)
+        );
+    }
 }
-- 
2.43.0


From 29cc2360aa873e6ce6a76cad36bdd9ad91b9faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:57 +0000
Subject: [PATCH 56/57] fix: the C library builds against the current library

---
 c/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/lib.rs b/c/src/lib.rs
index 6008ace..a396595 100644
--- a/c/src/lib.rs
+++ b/c/src/lib.rs
@@ -1,5 +1,5 @@
 extern crate libc;
-use ms_toollib::cal3BV as rs_cal3BV;
+use ms_toollib::cal_bbbv as rs_cal3BV;
 use ms_toollib::cal_possibility_onboard as rs_cal_possibility_onboard;
 use ms_toollib::laymine as rs_laymine;
 use ms_toollib::MinesweeperBoard as RustMinesweeperBoard;
-- 
2.43.0


From ae9973baf74cb8658c2f9d71d5d0e81e3df5c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:57 +0000
Subject: [PATCH 57/57] fix: free_board and free_board_poss give back all
 memory of a returned board

---
 c/src/lib.rs | 55 +++++++++++++++++-----------------------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/c/src/lib.rs b/c/src/lib.rs
index a396595..59252e0 100644
--- a/c/src/lib.rs
+++ b/c/src/lib.rs
@@ -3,8 +3,6 @@ use ms_toollib::cal_bbbv as rs_cal3BV;
 use ms_toollib::cal_possibility_onboard as rs_cal_possibility_onboard;
 use ms_toollib::laymine as rs_laymine;
 use ms_toollib::MinesweeperBoard as RustMinesweeperBoard;
-use std::alloc::{alloc, dealloc, Layout};
-use std::mem;
 use std::ptr;
 use std::slice;
 use libc::c_char;
@@ -108,18 +106,17 @@ fn struct_board_to_vec_board(board: Board) -> Vec<Vec<i32>> {
     b
 }
 
-fn vec_board_to_struct_board(mut b: Vec<Vec<i32>>) -> Board {
+fn vec_board_to_struct_board(b: Vec<Vec<i32>>) -> Board {
     let mut board: Vec<Row> = vec![];
     let n_row = b.len();
-    for i in 0..n_row {
+    // 只把每一行的内存交给c，外层的Vec要释放
+    for row in b {
         board.push(Row {
-            cells: b[i].as_mut_ptr(),
-            n_column: b[0].len(),
+            n_column: row.len(),
+            cells: Box::into_raw(row.into_boxed_slice()) as *mut i32,
         });
     }
-    let p = board.as_mut_ptr();
-    mem::forget(b);
-    mem::forget(board);
+    let p = Box::into_raw(board.into_boxed_slice()) as *mut Row;
     Board {
         rows: p,
         n_row: n_row,
@@ -178,19 +175,16 @@ pub extern "C" fn cal_possibility_onboard(board_of_game: Board, mine_num: f64) -
             b[i].push(array[j]);
         }
     }
-    let (mut b, c) = rs_cal_possibility_onboard(&b, mine_num).unwrap();
+    let (b, c) = rs_cal_possibility_onboard(&b, mine_num).unwrap();
 
     let mut board: Vec<RowPoss> = vec![];
-    for i in 0..b.len() {
+    for row in b {
         board.push(RowPoss {
-            cells_poss: b[i].as_mut_ptr(),
-            n_column: b[0].len(),
+            n_column: row.len(),
+            cells_poss: Box::into_raw(row.into_boxed_slice()) as *mut f64,
         });
     }
-    let p = board.as_mut_ptr();
-
-    mem::forget(b);
-    mem::forget(board);
+    let p = Box::into_raw(board.into_boxed_slice()) as *mut RowPoss;
     let t = BoardPoss {
         rows_poss: p,
         n_row: board_of_game.n_row,
@@ -207,13 +201,10 @@ pub extern "C" fn cal_possibility_onboard(board_of_game: Board, mine_num: f64) -
 pub extern "C" fn free_board(board: Board) {
     // 由rust分配的局面内存，也应该由rust释放
     unsafe {
-        for i in 0..board.n_row {
-            let layout =
-                Layout::from_size_align_unchecked((*(board.rows)).n_column, mem::size_of::<i32>());
-            dealloc((*(board.rows).offset(i as isize)).cells as *mut u8, layout);
+        let rows = Box::from_raw(slice::from_raw_parts_mut(board.rows, board.n_row));
+        for row in rows.iter() {
+            drop(Box::from_raw(slice::from_raw_parts_mut(row.cells, row.n_column)));
         }
-        let layout = Layout::from_size_align_unchecked(board.n_row as usize, mem::size_of::<Row>());
-        dealloc(board.rows as *mut u8, layout);
     }
 }
 
@@ -221,21 +212,11 @@ pub extern "C" fn free_board(board: Board) {
 pub extern "C" fn free_board_poss(board_poss: BoardPossReturn) {
     // 由rust分配的局面内存，也应该由rust释放
     unsafe {
-        for i in 0..board_poss.board_poss.n_row {
-            let layout = Layout::from_size_align_unchecked(
-                (*(board_poss.board_poss.rows_poss)).n_column,
-                mem::size_of::<f64>(),
-            );
-            dealloc(
-                (*(board_poss.board_poss.rows_poss).offset(i as isize)).cells_poss as *mut u8,
-                layout,
-            );
+        let board_poss = board_poss.board_poss;
+        let rows = Box::from_raw(slice::from_raw_parts_mut(board_poss.rows_poss, board_poss.n_row));
+        for row in rows.iter() {
+            drop(Box::from_raw(slice::from_raw_parts_mut(row.cells_poss, row.n_column)));
         }
-        let layout = Layout::from_size_align_unchecked(
-            board_poss.board_poss.n_row,
-            mem::size_of::<RowPoss>(),
-        );
-        dealloc(board_poss.board_poss.rows_poss as *mut u8, layout);
     }
 }
 
-- 
2.43.0

