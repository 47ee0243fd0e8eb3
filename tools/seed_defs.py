U='utils.rs';A='algorithms.rs';MB='videos/minesweeper_board.rs';BV='videos/base_video.rs';EV='videos/evf_video.rs';AV='videos/avf_video.rs';RV='videos/rmv_video.rs';BD='board.rs';SB='safe_board.rs'
PRE = "use ms_toollib::*;\n"
s('win_pointer_stale','C04',[(MB,"""                    self.pointer_x = i;
                    self.pointer_y = j;
                    return false;
                }
            }
        }
        true""","""                    self.pointer_x = i;
                    return false;
                }
            }
        }
        true""")],
 "the win scan stops late in one row, moves to a later row, and every cell left unopened in that row lies left of the old column",
 "the game is declared won although safe cells are still closed", PRE+r'''
fn main() {
    // mine in the middle of a 3x3 board: every border cell must be opened by hand
    let b = vec![vec![1, 1, 1], vec![1, -1, 1], vec![1, 1, 1]];
    let cells: Vec<(usize, usize)> = (0..9).filter(|k| *k != 4).map(|k| (k / 3, k % 3)).collect();
    let mut bad = 0;
    // every order of opening the eight cells
    fn go(b: &Vec<Vec<i32>>, cells: &Vec<(usize, usize)>, used: &mut Vec<usize>, bad: &mut usize) {
        if used.len() == cells.len() {
            let mut m = MinesweeperBoard::<Vec<Vec<i32>>>::new(b.clone());
            for (n, k) in used.iter().enumerate() {
                let _ = m.step("lc", cells[*k]); let _ = m.step("lr", cells[*k]);
                let won = m.game_board_state == GameBoardState::Win;
                if won != (n + 1 == cells.len()) { *bad += 1; return; }
            }
            return;
        }
        for k in 0..cells.len() { if !used.contains(&k) { used.push(k); go(b, cells, used, bad); used.pop(); } }
    }
    go(&b, &cells, &mut vec![], &mut bad);
    println!("wrong endings: {}", bad);
    std::process::exit((bad > 0) as i32);
}
''')
s('preflag_memory','C05',[(MB,"""        self.flag = 0;
        self.flagedList.clear();
        self.double = 0;""","""        self.flag = 0;
        self.double = 0;""")],
 "a mine is flagged before the game, all flags are taken back, the game starts and the same mine is flagged again",
 "the first flag on that mine is not counted as an effective click", PRE+r'''
fn main() {
    let b = vec![vec![-1, 1, 0], vec![1, 1, 0], vec![0, 0, 0], vec![1, 1, 1], vec![1, -1, 1]];
    let mut m = MinesweeperBoard::<Vec<Vec<i32>>>::new(b);
    for (e, p) in [("rc", (0, 0)), ("rr", (0, 0)), ("rc", (0, 0)), ("rr", (0, 0)), ("lc", (2, 2)), ("lr", (2, 2)), ("rc", (0, 0)), ("rr", (0, 0))] { m.step(e, p).unwrap(); }
    println!("ce {} left {} right {} flag {}", m.ce, m.left, m.right, m.flag);
    std::process::exit((m.ce != 2) as i32);
}
''')
s('chord_3bv_last_column','C06',[(MB,"""        // 如果是0，即使是3bv，依然返回false
        if self.board[x][y] <= 0 {
            return false;
        }
        for i in max(1, x) - 1..min(self.row, x + 2) {
            for j in max(1, y) - 1..min(self.column, y + 2) {""","""        // 如果是0，即使是3bv，依然返回false
        if self.board[x][y] <= 0 {
            return false;
        }
        for i in max(1, x) - 1..min(self.row, x + 2) {
            for j in max(1, y) - 1..min(self.column - 1, y + 2) {""")],
 "a number is opened by hand whose only zero neighbours lie in the last column",
 "the solved 3BV counts a border number as an isolated one and exceeds the board's 3BV", PRE+r'''
fn main() {
    let b = vec![vec![-1, 1, 0], vec![1, 1, 0], vec![0, 0, 0]];
    let mut m = MinesweeperBoard::<Vec<Vec<i32>>>::new(b.clone());
    for p in [(0, 1), (1, 0), (1, 1), (2, 2)] { m.step("lc", p).unwrap(); m.step("lr", p).unwrap(); }
    println!("solved {} of {} {:?}", m.bbbv_solved, cal_bbbv(&b), m.game_board_state);
    std::process::exit((m.bbbv_solved != cal_bbbv(&b) || m.game_board_state != GameBoardState::Win) as i32);
}
''')
s('knight_split','C24',[(U,"""                if x_t >= x_e + 3 || x_e >= x_t + 3 || y_t >= y_e + 3 || y_e >= y_t + 3 {
                    continue;
                }""","""                if x_t >= x_e + 3 || x_e >= x_t + 3 || y_t >= y_e + 3 || y_e >= y_t + 3 {
                    continue;
                }
                if x_t == x_e + 2 && y_t == y_e + 2 {
                    continue; // 对角方向相距两格
                }""")],
 "two numbers two cells apart diagonally share exactly one unopened cell and nothing else links them",
 "they are put in different blocks, so the shared cell appears twice and the blocks are not independent", PRE+r'''
fn main() {
    let g = vec![
        vec![1, 10, 10, 10, 10],
        vec![10, 10, 10, 10, 10],
        vec![10, 10, 1, 10, 10],
        vec![10, 10, 10, 10, 10],
        vec![10, 10, 10, 10, 10],
    ];
    let (_, xs, _, _, _) = refresh_matrixs(&g);
    let n: usize = xs.iter().map(|x| x.len()).sum();
    let mut all: Vec<_> = xs.into_iter().flatten().collect();
    all.sort(); all.dedup();
    println!("{} variables for {} cells", n, all.len());
    std::process::exit((n != all.len()) as i32);
}
''')
s('template_middle','C11',[(U,"""                    && Board[i + 2][j] == -1
                    && Board[i][j + 3] == -1
                    && Board[i + 1][j + 3] == -1
                    && Board[i + 2][j + 3] == -1
                    && Board[i + 1][j + 1] + Board[i + 1][j + 2] == -1""","""                    && Board[i + 2][j] == -1
                    && Board[i][j + 3] == -1
                    && Board[i + 2][j + 3] == -1
                    && Board[i + 1][j + 1] + Board[i + 1][j + 2] == -1""")],
 "seven mines in a particular pattern away from the border, with one opening in the wall that lets the pair be resolved",
 "a guess-free board is judged to need a guess", PRE+r'''
fn main() {
    let (r, c) = (9usize, 10usize);
    let mut bad = 0;
    // the wall with its gap, one of the two middle cells mined, at every place of the board
    for i in 1..r - 3 { for j in 1..c - 4 { for k in 1..3 {
        let mut b = vec![vec![0; c]; r];
        for (x, y) in [(i, j), (i + 1, j), (i + 2, j), (i, j + 3), (i + 2, j + 3), (i + 1, j + k)] { b[x][y] = -1; }
        for x in 0..r { for y in 0..c { if b[x][y] == 0 {
            let mut n = 0;
            for m in x.max(1) - 1..r.min(x + 2) { for q in y.max(1) - 1..c.min(y + 2) { if b[m][q] == -1 { n += 1; } } }
            b[x][y] = n;
        } } }
        // does plain deduction finish it from the corner?
        let s = if b[0][0] == 0 { (0, 0) } else { (r - 1, c - 1) };
        if b[s.0][s.1] != 0 { continue; }
        let mut g = vec![vec![10; c]; r];
        refresh_board(&b, &mut g, vec![s]);
        let mut fin = false;
        loop {
            let (mut a, mut x, mut v, _, _) = refresh_matrixs(&g);
            if v.is_empty() { break; }
            let (n, _) = get_all_not_and_is_mine_on_board(&mut a, &mut x, &mut v, &mut g);
            if n.is_empty() { break; }
            refresh_board(&b, &mut g, n);
        }
        if g.iter().flatten().zip(b.iter().flatten()).all(|(v, t)| *t == -1 || *v == *t) { fin = true; }
        if fin && !is_solvable(&b, s.0, s.1) { bad += 1; }
    } } }
    println!("wrong verdicts {}", bad);
    std::process::exit((bad > 0) as i32);
}
''')
s('first_cell_not_shuffled','C12',[(U,"""    #[cfg(any(feature = "py", feature = "rs"))]
    board1_dim.shuffle(&mut rng);

    #[cfg(feature = "js")]
    board1_dim.shuffle_();

    let mut board1_dim_2: Vec<i32> = vec![];""","""    #[cfg(any(feature = "py", feature = "rs"))]
    if area > 1 {
        let last = board1_dim.pop().unwrap();
        board1_dim.shuffle(&mut rng);
        board1_dim.push(last);
    }

    #[cfg(feature = "js")]
    board1_dim.shuffle_();

    let mut board1_dim_2: Vec<i32> = vec![];""")],
 "nothing but a look at the distribution: every single board is well formed",
 "the last cell is always a mine, so layouts are not equally likely", PRE+r'''
fn main() {
    let mut free = 0;
    for _ in 0..400 { if laymine(3, 3, 4, 0, 0)[2][2] != -1 { free += 1; } }
    println!("last cell free in {} of 400 boards", free);
    std::process::exit((free == 0) as i32);
}
''')
s('small_addend','C09',[(U,"""        while self.b > kb {
            ka /= 10.0;
            kb += 1;
        }""","""        if self.b > kb + 3 && self.a > 0.0 {
            return; // 相差悬殊，忽略不计
        }
        while self.b > kb {
            ka /= 10.0;
            kb += 1;
        }""")],
 "block layouts whose weights differ by more than four decimal orders, that is a large unknown region and blocks with several possible mine totals",
 "probabilities are off in the fourth digit", PRE+r'''
fn main() {
    // six separate ones on the first row of a 16x30 board: block totals differ by up to six mines
    let (r, c) = (16usize, 30usize);
    let mut g = vec![vec![10; c]; r];
    for k in 0..3 { g[0][4 * k] = 1; g[0][4 * k + 2] = 1; }
    let minenum = 7usize;
    let (a, xs, bs, unknown, _) = refresh_matrixs(&g);
    let mut cells: Vec<(usize, usize)> = xs.iter().flatten().cloned().collect();
    cells.sort(); cells.dedup();
    let nums: Vec<(usize, usize)> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| g[p.0][p.1] < 9).collect();
    let choose = |n: usize, k: usize| -> f64 { (0..k).map(|i| (n - i) as f64 / (i + 1) as f64).product() };
    let mut tot = 0.0; let mut w = vec![0.0; cells.len()];
    for m in 0u32..1 << cells.len() {
        let ok = nums.iter().all(|p| {
            let n = cells.iter().enumerate().filter(|(k, q)| m >> k & 1 == 1 && (q.0 as i32 - p.0 as i32).abs() <= 1 && (q.1 as i32 - p.1 as i32).abs() <= 1).count();
            n as i32 == g[p.0][p.1]
        });
        let k = m.count_ones() as usize;
        if !ok || k > minenum { continue; }
        let x = choose(unknown, minenum - k);
        tot += x;
        for i in 0..cells.len() { if m >> i & 1 == 1 { w[i] += x; } }
    }
    let p = cal_possibility(&g, minenum as f64).unwrap().0;
    let mut d: f64 = 0.0;
    for (q, v) in p { let i = cells.iter().position(|x| *x == q).unwrap(); d = d.max((v - w[i] / tot).abs()); }
    println!("largest error {}", d);
    let _ = (a, bs);
    std::process::exit((d > 1e-9) as i32);
}
''')
s('interior_independent','C10',[(A,"""                    poss[cell_id] *= 1.0 - p[m][n];
                    board_of_game_modified[m][n] = 12;""","""                    poss[cell_id] *= 1.0 - p[m][n];
                    let mut near_number = false;
                    for i in max(1, m) - 1..min(row, m + 2) {
                        for j in max(1, n) - 1..min(column, n + 2) {
                            near_number |= board_of_game[i][j] < 10;
                        }
                    }
                    if near_number {
                        // 内部的格子地位相同，不需要标记
                        board_of_game_modified[m][n] = 12;
                    }""")],
 "a queried cell with several neighbours that touch no number",
 "those cells are treated as independent, so the opening probability is slightly wrong", PRE+r'''
fn main() {
    // empty 3x3 board, 2 mines: corner opens iff its four cells are free: C(5,2)/C(9,2)
    let g = vec![vec![10; 3]; 3];
    let p = cal_is_op_possibility_cells(&g, 2.0, &vec![[0, 0]])[0];
    println!("{}", p);
    std::process::exit(((p - 10.0 / 36.0).abs() > 1e-9) as i32);
}
''')
s('ms_truncated','C17',[('miscellaneous.rs',"""    (time * 1000.0).round() as u32
}""","""    (time * 1000.0) as u32
}""")],
 "an event whose time in milliseconds, divided by 1000, lies just below its decimal value in floating point (for example 1001)",
 "the saved recording holds times one millisecond too early", PRE+r'''
fn main() {
    let mut raw: Vec<u8> = vec![0, 0xA0, 1, 2, 0, 1, 20, 0, 0, 0, 1];
    let last = 9_000u32;
    raw.extend([(last >> 16) as u8, (last >> 8) as u8, last as u8]);
    for _ in 0..8 { raw.push(b'x'); raw.push(0); }
    raw.push(0b1000_0000);
    let mut ev = |code: u8, t: u32, x: u16, y: u16| { raw.push(code); raw.extend([(t >> 16) as u8, (t >> 8) as u8, t as u8]); raw.extend(x.to_be_bytes()); raw.extend(y.to_be_bytes()); };
    for t in 0..8999 { ev(1, t, 25, 5); }
    ev(2, 8999, 25, 5); ev(3, 9000, 25, 5);
    raw.push(255);
    let f = "demo.evf"; std::fs::write(f, &raw).unwrap();
    let mut v = EvfVideo::new(f); v.parse_video().unwrap(); v.data.analyse();
    v.data.generate_evf_v0_raw_data();
    let out = v.data.get_raw_data().unwrap();
    let diff = out.iter().zip(raw.iter()).filter(|(a, b)| a != b).count() + (out.len() != raw.len()) as usize;
    println!("{} bytes differ", diff);
    std::process::exit((diff > 0) as i32);
}
''')
s('path_skips_inside','C18',[(BV,"""                if !(p.y as usize >= self.height * self.cell_pixel_size as usize
                    || p.x as usize >= self.width * self.cell_pixel_size as usize)
                {""","""                if !(p.y as usize >= self.height * self.cell_pixel_size as usize
                    && p.x as usize >= self.width * self.cell_pixel_size as usize)
                {""")],
 "the mouse leaves the board across one edge only, so the recorded position is outside in one coordinate, and comes back",
 "the travelled path includes the way back from outside the board", PRE+r'''
fn main() {
    let b = vec![vec![1, 1, 1], vec![1, -1, 1], vec![1, 1, 1]];
    let mut v = BaseVideo::<SafeBoard>::new_before_game(b, 16);
    for (e, p) in [("lc", (0, 0)), ("lr", (0, 0)), ("mv", (3, 4)), ("mv", (3, 900)), ("mv", (3, 4))] { v.step(e, p).unwrap(); }
    println!("path {}", v.get_path());
    std::process::exit(((v.get_path() - 5.0).abs() > 1e-9) as i32);
}
''')
s('mouse_position_last','C19',[(BV,"""        if self.game_board_state == GameBoardState::Display {
            m_s = self.video_action_state_recorder[self.current_event_id].mouse_state;""","""        if self.game_board_state == GameBoardState::Display && self.current_time < self.game_dynamic_params.rtime {
            m_s = self.video_action_state_recorder[self.current_event_id].mouse_state;""")],
 "a replay is at its very end", "the reported button state at the end of a replay is that of an unused state machine", PRE+r'''
fn main() {
    let mut raw: Vec<u8> = vec![0, 0x00, 1, 3, 0, 1, 16, 0, 0, 0, 2, 0, 0, 180];
    for _ in 0..8 { raw.push(b'x'); raw.push(0); }
    raw.push(0b0100_0000);
    let mut ev = |code: u8, t: u32, x: u16, y: u16| { raw.push(code); raw.extend([(t >> 16) as u8, (t >> 8) as u8, t as u8]); raw.extend(x.to_be_bytes()); raw.extend(y.to_be_bytes()); };
    ev(2, 0, 5, 5); ev(3, 20, 5, 5); ev(4, 40, 20, 5); ev(2, 200, 20, 5);
    raw.push(255);
    let f = "demo.evf"; std::fs::write(f, &raw).unwrap();
    let mut v = EvfVideo::new(f); v.parse_video().unwrap(); v.data.analyse(); v.data.is_offical = false;
    v.data.game_board_state = GameBoardState::Display;
    v.data.set_current_event_id(3).unwrap();
    let a = v.data.get_mouse_state();
    let b = v.data.video_action_state_recorder[3].mouse_state;
    println!("{} {:?}", a, b);
    assert!(b == MouseState::Chording);
    std::process::exit((a != 5) as i32);
}
''')
s('numbered_name','C22',[(BV,"""                let new_file_name = format_name.as_str();
                let file_exist = std::path::Path::new(new_file_name).exists();""","""                let new_file_name = format_name.as_str();
                let file_exist = std::path::Path::new(new_file_name.trim_end_matches(".evf")).exists();""")],
 "the plain name and the first numbered name are both taken", "the third save overwrites the second recording", PRE+r'''
fn main() {
    for n in ["r.evf", "r(2).evf"] { std::fs::write(n, "keep").unwrap(); }
    let b = vec![vec![1, -1]];
    let mut v = BaseVideo::<SafeBoard>::new_before_game(b, 16);
    v.step("lc", (0, 0)).unwrap(); v.step("lr", (0, 0)).unwrap();
    v.generate_evf_v0_raw_data();
    v.save_to_evf_file("r");
    let ok = std::fs::read("r(2).evf").unwrap() == b"keep" && std::fs::metadata("r(3).evf").is_ok();
    println!("{}", ok);
    std::process::exit(!ok as i32);
}
''')
s('reset_keeps_stream','C23',[(BV,"""        self.game_board_stream.clear();
        self.minesweeper_board =
            MinesweeperBoard::<SafeBoard>::new""","""        self.minesweeper_board =
            MinesweeperBoard::<SafeBoard>::new"""),(BV,"""        self.cell_pixel_size = pix_size;
        self.video_action_state_recorder.clear();
        self.game_board_stream.clear();
        self.raw_data.clear();
        self.static_params = StaticParams::default();
        self.game_dynamic_params = GameDynamicParams::default();
        self.video_dynamic_params = VideoDynamicParams::default();
        self.game_board_state = GameBoardState::Ready;
        self.board = SafeBoard::new""","""        self.cell_pixel_size = pix_size;
        self.video_action_state_recorder.clear();
        self.raw_data.clear();
        self.static_params = StaticParams::default();
        self.game_dynamic_params = GameDynamicParams::default();
        self.video_dynamic_params = VideoDynamicParams::default();
        self.game_board_state = GameBoardState::Ready;
        self.board = SafeBoard::new""")],
 "a game is played, the recorder is reset, and the next game starts with a flag (no plain press, which would clear the list, comes first)",
 "the boards of the previous game stay in the recorder and the first action of the next game has the old final board as its prior board", PRE+r'''
fn main() {
    let b = vec![vec![1, -1, 1, 1, -1], vec![1, 1, 1, 1, 1]];
    let play = |v: &mut BaseVideo<SafeBoard>| { for (e, p) in [("rc", (0, 16)), ("rr", (0, 16)), ("lc", (0, 64)), ("lr", (0, 64))] { v.step(e, p).unwrap(); } };
    let mut v = BaseVideo::<SafeBoard>::new_before_game(b.clone(), 16);
    play(&mut v);
    v.reset(2, 5, 16); v.set_board(b.clone()).unwrap();
    play(&mut v);
    let mut w = BaseVideo::<SafeBoard>::new_before_game(b, 16);
    play(&mut w);
    let boards = |x: &BaseVideo<SafeBoard>| x.video_action_state_recorder.iter().map(|e| (x.game_board_stream[e.prior_game_board_id].game_board.clone(), x.game_board_stream[e.next_game_board_id].game_board.clone())).collect::<Vec<_>>();
    println!("{:?}\n{:?}", boards(&v), boards(&w));
    std::process::exit((boards(&v) != boards(&w)) as i32);
}
''')
s('avf_high_second','C21',[(AV,"""                time: ((buffer[6] as u16) << 8 | buffer[2] as u16) as f64 - 1.0""","""                time: (((buffer[6] & 0x03) as u16) << 8 | buffer[2] as u16) as f64 - 1.0""")],
 "an AVF recording longer than 1024 seconds", "events after 1023 seconds get a wrong time", PRE+r'''
fn main() {
    let mut d = vec![0u8; 5]; d.push(6); d.extend([1, 0, 0, 1]); // 2 columns, 1 row, 1 mine
    d.extend([1, 1]);
    d.extend(b"[0|"); d.extend(b"a|b||B1T1201.00]X");
    let ev = |code: u8, t: f64, x: u16, y: u16| -> Vec<u8> { let s = t as u32 + 1; vec![code, (x >> 8) as u8, s as u8, x as u8, ((t * 100.0).round() as u32 % 100) as u8, (y >> 8) as u8, (s >> 8) as u8, y as u8] };
    let mut first = ev(1, 0.0, 20, 5); d.append(&mut first);
    for (c, t) in [(3u8, 1199.0), (5, 1200.0)] { let mut e = ev(c, t, 20, 5); d.append(&mut e); }
    d.extend([0u8; 8]); d.extend(b"Skin:\rme\r");
    std::fs::write("demo.avf", &d).unwrap();
    let mut v = AvfVideo::new("demo.avf");
    v.parse_video().unwrap();
    let t = v.data.video_action_state_recorder[2].time;
    println!("{}", t);
    std::process::exit(((t - 1200.0).abs() > 1e-6) as i32);
}
''')
s('spread_past_safe_mark','C03',[(U,"""                    if (i != m || j != n) && (boardofGame[m][n] == 10 || boardofGame[m][n] == 12) {""","""                    if (i != m || j != n) && (boardofGame[m][n] == 10 || boardofGame[m][n] == 12 && board[m][n] != 0) {""")],
 "a cell marked as safe by the solver is a zero inside an opening that is opened from elsewhere",
 "the opening stops at the marked cell", PRE+r'''
fn main() {
    let b = vec![vec![0, 0, 0, 1, -1]];
    let mut g = vec![vec![10, 12, 10, 10, 10]];
    refresh_board(&b, &mut g, vec![(0, 0)]);
    println!("{:?}", g);
    std::process::exit((g != vec![vec![0, 0, 0, 1, 10]]) as i32);
}
''')
s('enum_lower_limit','C07',[(U,"""                lower_limit_i -= combination_relationship[*j].len() as i32;""","""                lower_limit_i -= min(combination_relationship[*j].len() as i32, 2);""")],
 "a number that touches three or more interchangeable covered cells which come late in the enumeration",
 "layouts with all mines in that group are skipped, so a cell is declared safe or a mine although another layout says otherwise", PRE+r'''
fn main() {
    // every visible board of small shapes: mines declared must be mines in all layouts
    let mut bad = 0;
    for (r, c) in [(1usize, 6usize), (1, 7), (1, 8), (2, 4), (2, 5)] { for m in 0u32..1 << (r * c) {
        let mut b = vec![vec![0; c]; r];
        for k in 0..r * c { if m >> k & 1 == 1 { b[k / c][k % c] = -1; } }
        for x in 0..r { for y in 0..c { if b[x][y] == 0 {
            b[x][y] = (x.max(1) - 1..r.min(x + 2)).map(|i| (y.max(1) - 1..c.min(y + 2)).filter(|j| b[i][*j] == -1).count() as i32).sum(); } } }
        for o in 0u32..1 << (r * c) {
            if o & m != 0 || o.count_ones() > 3 { continue; }
            let g: Vec<Vec<i32>> = (0..r).map(|x| (0..c).map(|y| if o >> (x * c + y) & 1 == 1 { b[x][y] } else { 10 }).collect()).collect();
            let (a, x, v, _, _) = refresh_matrixs(&g);
            if v.is_empty() { continue; }
            let (n, i) = solve_enumerate(&a, &x, &v);
            if i.iter().any(|p| b[p.0][p.1] != -1) || n.iter().any(|p| b[p.0][p.1] == -1) { bad += 1; }
        }
    } }
    println!("{} wrong answers", bad);
    std::process::exit((bad > 0) as i32);
}
''')
s('guess_component','C15',[(A,'''                        flag_need = flag_need && n.is_empty();
                        if n.contains(&xy) {''','''                        flag_need = n.is_empty();
                        if n.contains(&xy) {''')],
 "safe cells of the block are found by the direct or subtraction stage only and the enumeration stage adds none, asked about an undecided border cell",
 "a needless guess is called a forced one", PRE+r'''
fn nb(r: usize, c: usize, k: usize) -> Vec<usize> {
    let (x, y) = (k / c, k % c);
    let mut v = vec![];
    for i in x.max(1) - 1..r.min(x + 2) { for j in y.max(1) - 1..c.min(y + 2) { if i * c + j != k { v.push(i * c + j); } } }
    v
}
fn main() {
    let mut bad = 0; let mut all = 0;
    for (r, c) in [(2usize, 4usize), (3, 3), (2, 5)] { let n = r * c; for m in 0u32..1 << n { for o in 0u32..1 << n {
        if o & m != 0 || o == 0 || o.count_ones() > 4 { continue; }
        let num = |m: u32, k: usize| nb(r, c, k).iter().filter(|q| m >> **q & 1 == 1).count() as i32;
        let g: Vec<Vec<i32>> = (0..r).map(|x| (0..c).map(|y| if o >> (x * c + y) & 1 == 1 { num(m, x * c + y) } else { 10 }).collect()).collect();
        let (_, xses, _) = refresh_matrixses(&g);
        if xses.len() != 1 { continue; }
        let open: Vec<usize> = (0..n).filter(|k| o >> k & 1 == 1).collect();
        let (mut any, mut every) = (0u32, !0u32);
        for l in 0u32..1 << n { if l & o == 0 && open.iter().all(|k| num(l, *k) == g[k / c][k % c]) { any |= l; every &= l; } }
        let border: Vec<usize> = (0..n).filter(|k| o >> k & 1 == 0 && nb(r, c, *k).iter().any(|q| o >> q & 1 == 1)).collect();
        let safe_exists = border.iter().any(|k| any >> k & 1 == 0);
        for k in border {
            if any >> k & 1 == 0 || every >> k & 1 == 1 { continue; }
            all += 1;
            let got = is_guess_while_needless(&mut g.clone(), &(k / c, k % c));
            if got != if safe_exists { 3 } else { 2 } { bad += 1; }
        }
    } } }
    println!("{} wrong of {}", bad, all);
    std::process::exit((bad > 0) as i32);
}
''')
s('cache_islands','C02',[(BD,'''        self.cell8 = ans[8];
        self.has_cal_cells = true;''','''        self.cell8 = ans[8];
        if self.cell0 == 0 {
            // 没有空，所有数字连成的岛屿不必再算
            self.islands = 1;
            self.has_cal_islands = true;
        }
        self.has_cal_cells = true;''')],
 "a board without zero whose numbers fall into several islands; a digit count is read before the islands",
 "the number of islands is always reported as one", PRE+r'''
fn main() {
    let b = vec![vec![1, -1, 2, -1, 1]];
    let mut p = Board::new(b.clone());
    let c = p.get_cell1();
    let i = p.get_isl();
    println!("ones {} islands {}", c, i);
    std::process::exit((i != Board::new(b).get_isl()) as i32);
}
''')

s('isl_diagonal','C01',[(U,"""            'outer: for m in max(1, i) - 1..min(row, i + 2) {
                for n in max(1, j) - 1..min(column, j + 2) {
                    if raw_board[m][n] == 0 {
                        flag = false;
                        break 'outer;
                    }
                }
            }
            if flag {
                board[i][j] = 0;""","""            'outer: for m in max(1, i) - 1..min(row, i + 2) {
                for n in max(1, j) - 1..min(column, j + 2) {
                    if raw_board[m][n] == 0 && raw_board[i][j] < 3 {
                        flag = false;
                        break 'outer;
                    }
                }
            }
            if flag {
                board[i][j] = 0;""")],
 "a digit of three or more on the edge of an opening", "it is counted as an island cell", PRE+r'''
fn main() {
    // a wall of three mines next to an opening: the middle number is 3
    let b = vec![vec![-1, 2, 0], vec![-1, 3, 0], vec![-1, 2, 0]];
    println!("{}", cal_isl(&b));
    std::process::exit((cal_isl(&b) != 0) as i32);
}
''')
s('set_keeps_rows','C16',[(SB,"""        let mut safe_board = vec![];
        for row in board {
            safe_board.push(SafeBoardRow::new(row));
        }
        self.value = safe_board;""","""        let rows = board.len();
        for (i, row) in board.into_iter().enumerate() {
            let row = SafeBoardRow::new(row);
            if i < self.value.len() {
                self.value[i] = row;
            } else {
                self.value.push(row);
            }
        }
        if rows > self.value.len() {
            self.value.truncate(rows);
        }""")],
 "a board with fewer rows is set over a larger one", "the old rows stay behind", PRE+r'''
fn main() {
    let mut s = SafeBoard::new(vec![vec![1, -1]; 3]);
    s.set(vec![vec![-1, 1]]);
    println!("{:?}", s.into_vec_vec());
    std::process::exit((s.into_vec_vec() != vec![vec![-1, 1]]) as i32);
}
''')
s('rmv_mine_row','C20',[(RV,"""            if c >= self.data.width || d >= self.data.height {
                return Err(ErrReadVideoReason::InvalidMinePosition);
            }""","""            if c >= self.data.width && d >= self.data.height {
                return Err(ErrReadVideoReason::InvalidMinePosition);
            }""")],
 "a recording with a mine beyond one edge of the board only", "the loader panics", PRE+r'''
fn main() {
    let file = |col: u8, row: u8| -> Vec<u8> {
        let mut o = b"*rmv".to_vec();
        o.extend([0, 1, 9, 9, 9, 9]);
        o.extend(40u16.to_be_bytes()); o.extend(1u16.to_be_bytes()); o.extend([7, 7, 7, 7]);
        o.extend(0u16.to_be_bytes()); o.extend(4u16.to_be_bytes());
        o.extend([5, 5, 5, 5, 6, 6, 10]);
        let mut res = vec![b'.'; 37]; res[8..11].copy_from_slice(b" 12"); res[27..37].copy_from_slice(b"1382834716");
        o.extend(res); o.extend(b";\nV");
        o.extend(1u16.to_be_bytes()); o.extend([1, b'n']);
        o.extend([3, 3, 3, 3, 2, 2]); o.extend(1u16.to_be_bytes()); o.extend([col, row]);
        o.extend([1, 0, 0, 3]);
        for (c, t) in [(3u8, 0u8), (2, 1), (3, 2)] { o.extend([c, 0, 0, t, 7, 0, 12, 0, 56]); }
        o.push(15);
        o
    };
    std::fs::write("d.rmv", file(1, 1)).unwrap();
    let mut v = RmvVideo::new("d.rmv");
    assert!(v.parse_video().is_ok());
    let mut bad = 0;
    for (c, r) in [(1u8, 2u8), (2, 1), (2, 2), (255, 0), (0, 255)] {
        std::fs::write("d.rmv", file(c, r)).unwrap();
        match std::panic::catch_unwind(|| { let mut v = RmvVideo::new("d.rmv"); v.parse_video().is_err() }) { Ok(true) => {} x => { println!("{:?}", x.is_ok()); bad += 1; } }
    }
    std::process::exit((bad > 0) as i32);
}
''')
s('good_chording_tie','C25',[(U,"""        if mid_num < surround_cell_num(board_of_game, (pos.0, pos.1 - 1)) {
            return false;
        }""","""        if mid_num <= surround_cell_num(board_of_game, (pos.0, pos.1 - 1)) {
            return false;
        }""")],
 "the left neighbour's double click would open exactly as many cells", "an equally good double click is judged bad", PRE+r'''
fn main() {
    let g = vec![vec![10, 10, 10, 10], vec![10, 1, 1, 10], vec![10, 11, 10, 10]];
    println!("{}", is_good_chording(&g, (1, 2)));
    std::process::exit(!is_good_chording(&g, (1, 2)) as i32);
}
''')
s('too_many_marked','C26',[(A,"""        let mm = (minenum as usize).overflowing_sub(is_minenum);
        match mm.1 {
            false => mm.0,
            // 标雷环节没有查出错误，而且标了很多雷，算概率环节会返回17
            true => return Err(17),
        }""","""        // 标雷环节没有查出错误，而且标了很多雷，则没有剩余的雷
        (minenum as usize).saturating_sub(is_minenum)""")],
 "a board on which more mines are certain than the mine total and whose rest needs no mine", "probabilities are presented for an impossible mine total", PRE+r'''
fn main() {
    let g = vec![vec![11, 1, 10], vec![1, 1, 10], vec![10, 10, 11]];
    let r = cal_possibility(&vec![vec![11, 1, 1, 11]], 1.0);
    println!("{:?}", r);
    let _ = g;
    std::process::exit(r.is_ok() as i32);
}
''')
s('rate_threshold','C28',[(BV,"""                return Ok(0.0);
            }
            return Ok(bbbv_solved as f64 / self.current_time);""","""                return Ok(0.0);
            }
            return Ok(bbbv_solved as f64 / self.current_time.max(0.01));""")],
 "a replay sought to a moment in its first ten milliseconds with 3BV already solved", "3BV/s is too low", PRE+r'''
fn main() {
    let mut raw: Vec<u8> = vec![0, 0x00, 1, 3, 0, 1, 16, 0, 0, 0, 2, 0, 0, 180];
    for _ in 0..8 { raw.push(b'x'); raw.push(0); }
    raw.push(0b0100_0000);
    let mut ev = |code: u8, t: u32, x: u16, y: u16| { raw.push(code); raw.extend([(t >> 16) as u8, (t >> 8) as u8, t as u8]); raw.extend(x.to_be_bytes()); raw.extend(y.to_be_bytes()); };
    ev(2, 0, 5, 5); ev(3, 0, 5, 5); ev(2, 4, 40, 5); ev(3, 5, 40, 5);
    raw.push(255);
    std::fs::write("demo.evf", &raw).unwrap();
    let mut v = EvfVideo::new("demo.evf"); v.parse_video().unwrap(); v.data.analyse(); v.data.is_offical = false;
    v.data.game_board_state = GameBoardState::Display;
    v.data.set_current_time(0.005);
    let (s, b) = (v.data.get_bbbv_solved().unwrap(), v.data.get_bbbv_s().unwrap());
    println!("{} {}", s, b);
    assert!(s > 0);
    std::process::exit(((b - s as f64 / 0.005).abs() > 1e-6) as i32);
}
''')
s('enum_limit','C08',[('lib.rs',"""const ENUM_LIMIT: usize = 55;""","""const ENUM_LIMIT: usize = 40;""")],
 "a connected block of more than forty border cells", "its determined cells are not found", PRE+r'''
fn main() {
    // a long wall: one mine at each end fixes everything only by following the whole chain
    let n = 60usize;
    // second row open; every third cell of the first row holds a mine except the far end
    let mut b = vec![vec![0; n]; 3];
    for j in (1..n).step_by(3) { b[0][j] = -1; }
    for x in 0..3 { for y in 0..n { if b[x][y] == 0 { b[x][y] = (x.max(1) - 1..3.min(x + 2)).map(|i| (y.max(1) - 1..n.min(y + 2)).filter(|j| b[i][*j] == -1).count() as i32).sum(); } } }
    let mut miss = 0;
    for len in [45usize, 48, 51] {
        let g: Vec<Vec<i32>> = (0..3).map(|x| (0..len).map(|y| if x == 0 { 10 } else { b[x][y] }).collect()).collect();
        // numbers of the cut board
        let (a, xs, bs, _, _) = refresh_matrixs(&g);
        let (ns, is) = solve_enumerate(&a, &xs, &bs);
        println!("{}: {} safe {} mines", len, ns.len(), is.len());
        if ns.is_empty() || is.is_empty() { miss += 1; }
    }
    std::process::exit((miss > 0) as i32);
}
''')

s('adjust_two_left','C13',[(A,"""        if row * column - minenum == 1 {""","""        if row * column - minenum <= 2 {""")],
 "a board so full that the start cannot be an opening, with exactly one safe cell besides the start",
 "a board that needs guessing is reported as guess-free", PRE+r'''
fn main() {
    let mut bad = 0;
    for _ in 0..50 { let (b, ok) = laymine_solvable_adjust(5, 5, 23, 2, 2); if ok && !is_solvable(&b, 2, 2) { bad += 1; } }
    println!("{} boards reported guess-free wrongly", bad);
    std::process::exit((bad > 0) as i32);
}
''')
s('bounded_results','C14',[(A,"""    let (tx, rx) = mpsc::channel(); // mpsc""","""    let (tx, rx) = mpsc::sync_channel(14); // mpsc"""),(A,"""        let tx_ = mpsc::Sender::clone(&tx);""","""        let tx_ = tx.clone();""")],
 "seven workers find a guess-free board before any of them sees the exit flag, so that fifteen results are sent",
 "the last worker waits for room in the channel while the caller waits for the worker: deadlock", PRE+r'''
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(100));
        println!("deadlock");
        std::process::exit(1);
    });
    for _ in 0..6000 { let (_, ok) = laymine_solvable_thread(30, 30, 2, 15, 15, 64); if !ok { println!("no success"); } }
    std::process::exit(0);
}
''')
s('shared_winner_rows','C14',[(A,"""    let flag_exit = Arc::new(Mutex::new(0));
    let (tx, rx) = mpsc::channel(); // mpsc""","""    let flag_exit = Arc::new(Mutex::new(0));
    let winner = Arc::new(Mutex::new(vec![vec![0; column]; row]));
    let (tx, rx) = mpsc::channel(); // mpsc"""),(A,"""        let flag_exit = Arc::clone(&flag_exit);
        let handle""","""        let flag_exit = Arc::clone(&flag_exit);
        let winner = Arc::clone(&winner);
        let handle"""),(A,"""                    for i in 0..row {
                        for j in 0..column {
                            Board[i][j] = Board_[i][j];
                        }
                    }
                    let mut f = flag_exit.lock().unwrap();""","""                    for i in 0..row {
                        let mut w = winner.lock().unwrap();
                        for j in 0..column {
                            w[i][j] = Board_[i][j];
                        }
                    }
                    Board = winner.lock().unwrap().clone();
                    let mut f = flag_exit.lock().unwrap();""")],
 "two workers find a guess-free board at the same time and copy their rows alternately",
 "the returned board mixes the rows of two boards", PRE+r'''
fn main() {
    let t = std::time::Instant::now();
    let mut bad = 0;
    while t.elapsed().as_secs() < 60 && bad == 0 { for _ in 0..100 {
        let (b, _) = laymine_solvable_thread(90, 6, 30, 40, 2, 64);
        let m: usize = b.iter().flatten().filter(|x| **x == -1).count();
        let wrong = (0..90usize).any(|r| (0..6usize).any(|c| b[r][c] >= 0 && b[r][c] != (r.max(1) - 1..90.min(r + 2)).map(|i| (c.max(1) - 1..6.min(c + 2)).filter(|j| b[i][*j] == -1).count() as i32).sum::<i32>()));
        if m != 30 || wrong { bad += 1; }
    } }
    println!("{} mixed boards", bad);
    std::process::exit((bad > 0) as i32);
}
''')
s('study_last_column','C27',[(A,"""                    for k in max(1, y) - 1..min(30, y + 2) {""","""                    for k in max(1, y) - 1..min(29, y + 2) {""")],
 "mines next to the last column of the sampled board",
 "cells of the last column are taken as empty, and the board is counted in another bin", PRE+r'''
fn main() {
    let mean = |h: &[usize; 382]| h.iter().enumerate().map(|(i, n)| i * n).sum::<usize>() as f64 / h.iter().sum::<usize>() as f64;
    let mut own = [0usize; 382];
    for _ in 0..40000 { own[cal_bbbv(&laymine(16, 30, 99, 8, 15))] += 1; }
    let h = sample_3BVs_exp(8, 15, 40000);
    println!("mean 3BV {} of the sample, {} of generated boards", mean(&h), mean(&own));
    std::process::exit(((mean(&h) - mean(&own)).abs() > 1.0) as i32);
}
''')
AM='videos/analyse_methods.rs';PYB='../../python_package/src/base_video.rs';JSB='../../wasm/src/board.rs'
REC = r'''
// a recording: header, board bits, events "t kind x y", written as the format says
fn evf(rows: u8, cols: u8, mines: &[(usize, usize)], bbbv: u16, soft: &str, start: &str, sum: [u8; 32], fair: bool, evs: &[(u32, u8, u16, u16)]) -> BaseVideo<Vec<Vec<i32>>> {
    let mut o = vec![0u8, 0x80 | (fair as u8) << 5, rows, cols];
    o.extend((mines.len() as u16).to_be_bytes());
    o.push(16);
    o.extend([0, 0]);
    o.extend(bbbv.to_be_bytes());
    o.extend(&evs.last().unwrap().0.to_be_bytes()[1..]);
    for s in [soft, "p", "r", "u", start, "1600000001", "CN", "d"] { o.extend(s.as_bytes()); o.push(0); }
    let mut bits = vec![0u8; (rows as usize * cols as usize + 7) / 8];
    for m in mines { let i = m.0 * cols as usize + m.1; bits[i / 8] |= 0x80 >> (i % 8); }
    o.extend(bits);
    for (t, k, x, y) in evs { o.push(*k); o.extend(&t.to_be_bytes()[1..]); o.extend(x.to_be_bytes()); o.extend(y.to_be_bytes()); }
    o.push(0);
    o.extend(sum);
    let f = "rec.evf";
    std::fs::write(f, &o).unwrap();
    let mut v = EvfVideo::new(f);
    v.parse_video().unwrap();
    v.data.analyse();
    v.data
}
fn left(t: u32, r: u16, c: u16) -> Vec<(u32, u8, u16, u16)> { vec![(t, 2, c * 16 + 8, r * 16 + 8), (t + 10, 3, c * 16 + 8, r * 16 + 8)] }
fn right(t: u32, r: u16, c: u16) -> Vec<(u32, u8, u16, u16)> { vec![(t, 4, c * 16 + 8, r * 16 + 8), (t + 10, 5, c * 16 + 8, r * 16 + 8)] }
fn told(d: &mut BaseVideo<Vec<Vec<i32>>>, name: &str) -> Vec<(usize, String)> {
    d.analyse_for_features(vec![name]);
    d.video_action_state_recorder.iter().enumerate().filter(|e| !e.1.comments.is_empty()).map(|e| (e.0, e.1.comments.clone())).collect()
}
'''
s('vision_left_edge','C31',[(AM,"""                    .get_basic_not_mine()
                {
                    if xxx <= l_x + 3 && xxx + 3 >= l_x && yyy <= l_y + 3 && yyy + 3 >= l_y {""","""                    .get_basic_not_mine()
                {
                    if xxx <= l_x + 3 && xxx + 3 >= l_x && yyy <= l_y + 3 && yyy + 2 >= l_y {""")],
 "the eye moves away while the only deducible safe cell lies exactly three columns to the left of the last opened cell",
 "the remark on the eye movement is missing", PRE+REC+r'''
fn main() {
    // 3 x 20: mines in the middle row, columns 4 and 12; the opening at column 7 leaves columns 0-4 and 12-19 closed.
    // (0, 4) and (2, 4) are safe (differences of the three ones beside them); the next opening is 7 columns away.
    let mut bad = 0;
    for (c, want) in [(7u16, true), (6, true), (8, false)] {
        let mut e = left(0, 0, c);
        e.extend(left(100, 0, c + 7));
        if c < 7 { e.truncate(2); e.extend(left(100, 0, 14)); }
        let mut d = evf(3, 20, &[(1, 4), (1, 12)], 3, "Arbiter", "1600000000", [1; 32], true, &e);
        let t = told(&mut d, "vision_transfer");
        // from column 8 the safe cells of column 4 are too far, those of column 12 too
        println!("{} {:?}", c, t);
        if (t.len() == 1 && t[0].0 == 1) != want || !want && !t.is_empty() { bad = 1; }
    }
    std::process::exit(bad);
}
''')
s('fl_run_counts_unflag','C31',[(AM,"""            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
            && video.video_action_state_recorder[ide].useful_level == 1
        {""","""            && video.video_action_state_recorder[ide].useful_level == 1
        {""")],
 "a flag is taken back and set again within a run of flags and double clicks of three or four steps",
 "the flag taken back counts as a step, and a run that is too short is praised", PRE+REC+r"""
fn both(t: u32, r: u16, c: u16) -> Vec<(u32, u8, u16, u16)> { vec![(t, 2, c * 16 + 8, r * 16 + 8), (t + 1, 4, c * 16 + 8, r * 16 + 8), (t + 2, 3, c * 16 + 8, r * 16 + 8), (t + 3, 5, c * 16 + 8, r * 16 + 8)] }
fn main() {
    // 3 x 10, mines in the first row, even columns: one click opens the two lower rows
    let mut e = left(0, 2, 0);
    e.extend(right(300, 0, 0));
    e.extend(right(400, 0, 2));
    e.extend(right(500, 0, 2)); // taken back
    e.extend(right(600, 0, 2));
    e.extend(both(700, 1, 2));
    e.extend(left(900, 0, 5));
    let mut d = evf(3, 10, &[(0, 0), (0, 2), (0, 4), (0, 6), (0, 8)], 3, "Arbiter", "1600000000", [1; 32], true, &e);
    let t = told(&mut d, "super_fl_local");
    let lv: Vec<(String, u8)> = d.video_action_state_recorder.iter().map(|e| (e.mouse.clone(), e.useful_level)).collect();
    println!("{:?} {:?}", t, lv);
    // three flags set and one double click: too short for a remark
    std::process::exit(!t.is_empty() as i32);
}
""")
s('vienna_last_second','C32',[(BV,"""            if start_time > 1682265600 {""","""            if start_time >= 1682265600 {""")],
 "a Viennasweeper recording started exactly in the last allowed second",
 "a legal recording is judged illegal", PRE+REC+r'''
fn main() {
    let mut e = left(0, 0, 0);
    let rel = e.pop().unwrap();
    for i in 0..12 { e.push((i, 1, 8 + (i % 2) as u16, 8)); }
    e.push((20, rel.1, rel.2, rel.3));
    let mut bad = 0;
    for (t, w) in [("1682265599", 0), ("1682265600", 0), ("1682265601", 1), ("1382834716", 0), ("168226560", 3)] {
        let d = evf(1, 3, &[(0, 2)], 1, "Viennasweeper", t, [1; 32], false, &e);
        if d.is_valid() != w { println!("{}: {} want {}", t, d.is_valid(), w); bad = 1; }
    }
    std::process::exit(bad);
}
''')
s('checksum_tail','C32',[(BV,"""            if self.checksum.iter().all(|&e| e == self.checksum[0]) {""","""            if self.checksum.iter().take(31).all(|&e| e == self.checksum[0]) {""")],
 "a checksum whose only different byte is the last one",
 "a legal recording is judged illegal", PRE+REC+r'''
fn main() {
    let mut e = left(0, 0, 0);
    let rel = e.pop().unwrap();
    for i in 0..12 { e.push((i, 1, 8 + (i % 2) as u16, 8)); }
    e.push((20, rel.1, rel.2, rel.3));
    let mut bad = 0;
    for k in 0..33usize {
        let mut c = [7u8; 32];
        if k < 32 { c[k] = 8; }
        let w = (k == 32) as u8;
        let d = evf(1, 3, &[(0, 2)], 1, "元3.2", "1700000000", c, true, &e);
        if d.is_valid() != w { println!("byte {}: {} want {}", k, d.is_valid(), w); bad = 1; }
    }
    std::process::exit(bad);
}
''')
s('py_reset_turned','C29',[(PYB,"""        self.core.reset(row, column, pix_size);""","""        self.core.reset(column, row, pix_size);""")],
 "a live recording is reset to a board that is not square",
 "rows and columns of the new board are exchanged", py(r'''
import ms_toollib as m
v = m.BaseVideo([[0, 1, -1], [0, 1, 1]], 16)
bad = 0
for r, c in [(4, 4), (2, 5), (7, 3)]:
    v.reset(r, c, 20)
    if (v.row, v.column) != (r, c): print("reset to", r, c, "gives", v.row, v.column); bad = 1
raise SystemExit(bad)
'''))
s('js_chording_notflag','C30',[(JSB,"""            ms::MouseState::ChordingNotFlag => 6,
            ms::MouseState::DownUpAfterChording => 7,
            ms::MouseState::Undefined => 8,
        }
    }
}

// 定义宏""","""            ms::MouseState::ChordingNotFlag => 5,
            ms::MouseState::DownUpAfterChording => 7,
            ms::MouseState::Undefined => 8,
        }
    }
}

// 定义宏""")],
 "both buttons held, the right one pressed first on a cell that cannot be flagged",
 "the state machine reports the wrong mouse state", js(r'''
mod transfor { include!("@REPO@/wasm/src/transfor.rs"); }
mod board {
    include!("@REPO@/wasm/src/board.rs");
    pub fn demo() -> i32 {
        // 1 x 3, the middle opened; right button on it, then left button
        let mut b = MinesweeperBoard::new("[[0,1,-1]]");
        b.step("lc", 0, 1); b.step("lr", 0, 1);
        b.step("rc", 0, 1);
        let a = b.get_mouse_state();
        b.step("lc", 0, 1);
        let c = b.get_mouse_state();
        println!("{} {}", a, c);
        (a != 3 || c != 6) as i32
    }
}
fn main() { std::process::exit(board::demo()); }
'''))

PIC = r'''
const GLYPH: [[&str; 10]; 9] = [[""; 10],
["....##....","...###....","..####....","....##....","....##....","....##....","....##....","....##....","..######..","..######.."],
[".########.","##########","##......##","........##","......####","....####..","..####....","####......","##########","##########"],
["########..","#########.",".......###",".......###","..#######.","..#######.",".......###",".......###","#########.","########.."],
["..###.###.","..###.###.",".###..###.",".###..###.","##########","##########","......###.","......###.","......###.","......###."],
["##########","##########","##........","##........","#########.","##########","........##","........##","#########.","########.."],
[".########.","#########.","###.......","###.......","#########.","##########","###....###","###....###","##########",".########."],
["##########","##########","........##","........##",".......##.",".......##.","......##..","......##..",".....##...",".....##..."],
[".########.","##########","###....###","###....###",".########.",".########.","###....###","###....###","##########",".########."]];
const COL: [[usize; 3]; 9] = [[192,192,192],[0,0,255],[0,128,0],[255,0,0],[0,0,128],[128,0,0],[0,128,128],[0,0,0],[128,128,128]];
fn pixel(v: i32, y: usize, x: usize) -> [usize; 3] {
    if v == 10 {
        if y + x < 15 && (y < 2 || x < 2) { return [255; 3]; }
        if y + x > 15 && (y > 13 || x > 13) { return [128; 3]; }
        return [192; 3];
    }
    if y == 0 || x == 0 { return [128; 3]; }
    if v > 0 && (3..13).contains(&y) && (3..13).contains(&x) && GLYPH[v as usize][y - 3].as_bytes()[x - 3] == b'#' { return COL[v as usize]; }
    [192; 3]
}
fn read(b: &Vec<Vec<i32>>) -> Result<Vec<Vec<i32>>, String> {
    let (rh, cw, m) = (b.len() * 32, b[0].len() * 32, 7usize);
    let (h, w) = (rh + 2 * m, cw + 2 * m);
    let mut o = vec![];
    for y in 0..h { for x in 0..w {
        let (yy, xx) = (y as i64 - 7, x as i64 - 7);
        let c = if yy >= 0 && xx >= 0 && yy < rh as i64 && xx < cw as i64 { let (yy, xx) = (yy as usize, xx as usize); pixel(b[yy / 32][xx / 32], yy % 32 / 2, xx % 32 / 2) }
            else if yy >= -3 && xx >= -3 && yy < rh as i64 + 3 && xx < cw as i64 + 3 { if yy < 0 || xx < 0 { [128; 3] } else { [255; 3] } } else { [192; 3] };
        o.extend([c[2], c[1], c[0], 255]);
    } }
    OBR_board(o, h, w)
}
fn block(mask: usize) -> Vec<Vec<i32>> {
    let mine = |i: usize, j: usize| (3..6).contains(&i) && (3..6).contains(&j) && mask >> ((i - 3) * 3 + j - 3) & 1 == 1;
    (0..8usize).map(|i| (0..8usize).map(|j| if mine(i, j) { 10 } else { let mut n = 0; for y in i.saturating_sub(1)..(i + 2).min(8) { for x in j.saturating_sub(1)..(j + 2).min(8) { n += mine(y, x) as i32; } } n }).collect()).collect()
}
'''
s('read_eight','C33',[(A,"""        9 => Ok(8),""","""        9 => Ok(7),""")],
 "a picture that shows the number 8",
 "an 8 is read as 7", PRE+PIC+r'''
fn main() {
    std::env::set_current_dir(std::env::var("REPO").unwrap() + "/base").unwrap();
    let mut bad = 0;
    for mask in [0b111101111usize, 0b111101110, 0b1, 0b101010101, 0b011101111] { let b = block(mask); let g = read(&b); if g != Ok(b.clone()) { println!("{:?} read as {:?}", b, g); bad = 1; } }
    std::process::exit(bad);
}
''')
s('clamp_eight','C33',[(U,"""            } else if board[x][y] >= 1 && board[x][y] <= 8 {
                let mut minenum_limit""","""            } else if board[x][y] >= 1 && board[x][y] < 8 {
                let mut minenum_limit""")],
 "a picture with an 8 that has fewer than eight unopened cells around it",
 "the reading holds a number larger than the unopened cells around it", PRE+PIC+r'''
fn main() {
    std::env::set_current_dir(std::env::var("REPO").unwrap() + "/base").unwrap();
    let mut bad = 0;
    for v in 3..9 { 
        let mut b = vec![vec![10; 9]; 9];
        for i in 2..7 { for j in 2..7 { b[i][j] = 0; } }
        b[4][4] = v; b[3][4] = 10; b[5][5] = 10;
        let g = read(&b);
        b[4][4] = 2;
        if g != Ok(b.clone()) { println!("{} read as {:?}", v, g); bad = 1; }
    }
    std::process::exit(bad);
}
''')

s('reflag_after_other','C05',[(MB,'''                        if !self.flagedList.contains(&(x, y)) {''','''                        if self.flagedList.last() != Some(&(x, y)) {''')],
 "a flagged mine loses its flag and gets it back after another mine was flagged in between",
 "putting the flag back counts as an effective click", PRE+r'''
fn main() {
    let b = vec![vec![-1, 2, -1], vec![1, 2, 1], vec![0, 0, 0], vec![1, 1, 1], vec![1, -1, 1]];
    let mut m = MinesweeperBoard::<Vec<Vec<i32>>>::new(b);
    m.step("lc", (2, 1)).unwrap(); m.step("lr", (2, 1)).unwrap();
    for p in [(0, 0), (0, 2), (0, 0), (0, 0)] { m.step("rc", p).unwrap(); m.step("rr", p).unwrap(); }
    println!("ce {} right {} flag {}", m.ce, m.right, m.flag);
    std::process::exit((m.ce != 3 || m.flag != 2) as i32);
}
''')
s('opening_twice','C06',[(MB,'''            if self.board[i][j] == 0 && !game_board_mark[i][j] {
                if self.cell_is_op''','''            if self.board[i][j] == 0 {
                if self.cell_is_op''')],
 "one double click opens two or more zero cells of one opening, next to a standing flag",
 "the opening is counted once for each of its cells that the double click touched", PRE+r'''
fn main() {
    let b = vec![vec![-1, 1, 0, 0], vec![1, 1, 0, 0], vec![0, 0, 0, 0], vec![0, 0, 0, 0]];
    let mut m = MinesweeperBoard::<Vec<Vec<i32>>>::new(b.clone());
    for (e, p) in [("lc", (1, 1)), ("lr", (1, 1)), ("rc", (0, 0)), ("rr", (0, 0)), ("lc", (1, 1)), ("rc", (1, 1)), ("lr", (1, 1)), ("rr", (1, 1))] { m.step(e, p).unwrap(); }
    println!("{:?} solved {} of {}", m.game_board_state, m.bbbv_solved, cal_bbbv(&b));
    std::process::exit((m.bbbv_solved > cal_bbbv(&b) || m.bbbv_solved != 1) as i32);
}
''')
s('long_block_share','C09',[(A,'''            unknow_block += matrix_x_s_len;''','''            unknow_block += ENUM_LIMIT;''')],
 "a connected group of more than 55 unopened border cells",
 "the cells of such a group are not counted among the unknown cells, so the average probability is wrong", PRE+r'''
fn main() {
    let n = 60usize;
    let mut v = vec![vec![10; n], vec![10; n], vec![1; n]];
    v[2][0] = 1; 
    let m = 20.0;
    let (p, u, r, len) = cal_possibility(&v, m).unwrap();
    println!("{:?} {} {:?} {}", p, u, r, len);
    std::process::exit((!p.is_empty() || (u - 20.0 / 120.0).abs() > 1e-9 || len != 60 || r != [0, 20, 120]) as i32);
}
''')
s('loaded_reset_flags','C23',[(BV,'''        self.minesweeper_board = MinesweeperBoard::<Vec<Vec<i32>>>::new(vec![vec![0; column]; row]);
        self.width = column;
        self.height = row;
        self.cell_pixel_size = pix_size;
        self.video_action_state_recorder.clear();
        self.game_board_stream.clear();
        self.raw_data.clear();
        self.static_params = StaticParams::default();''','''        self.minesweeper_board = MinesweeperBoard::<Vec<Vec<i32>>>::new(vec![vec![0; column]; row]);
        self.width = column;
        self.height = row;
        self.cell_pixel_size = pix_size;
        self.video_action_state_recorder.clear();
        self.game_board_stream.clear();
        self.raw_data.clear();''')],
 "a loaded and analysed recording is reset",
 "the board figures of the old recording remain", PRE+r'''
fn main() {
    let mut raw: Vec<u8> = vec![0, 0x00, 1, 3, 0, 1, 16, 0, 0, 0, 2, 0, 0, 180];
    for _ in 0..8 { raw.push(b'x'); raw.push(0); }
    raw.push(0b0100_0000);
    let mut ev = |code: u8, t: u32, x: u16, y: u16| { raw.push(code); raw.extend([(t >> 16) as u8, (t >> 8) as u8, t as u8]); raw.extend(x.to_be_bytes()); raw.extend(y.to_be_bytes()); };
    ev(2, 0, 5, 5); ev(3, 20, 5, 5); ev(2, 100, 20, 5); ev(3, 180, 20, 5);
    raw.push(255);
    let f = "demo.evf"; std::fs::write(f, &raw).unwrap();
    let mut v = EvfVideo::new(f); v.parse_video().unwrap(); v.data.analyse();
    let before = v.data.static_params.cell1;
    v.data.reset(1, 2, 16);
    println!("ones {} then {}", before, v.data.static_params.cell1);
    std::process::exit((before != 2 || v.data.static_params.cell1 != 0 || v.data.static_params.bbbv != 0) as i32);
}
''')
s('reveal_hides_hit','C04',[(BV,'''                if self.minesweeper_board.board[i][j] == -1
                    && self.minesweeper_board.game_board[i][j] == 10''','''                if self.minesweeper_board.board[i][j] == -1
                    && self.minesweeper_board.game_board[i][j] != 11''')],
 "the mines are shown after a loss",
 "the mine that was hit is shown like the others", PRE+r'''
fn main() {
    let b = vec![vec![1, -1, 2, -1, 1], vec![1, 1, 2, 1, 1]];
    let mut v = BaseVideo::<SafeBoard>::new_before_game(b, 16);
    for (e, p) in [("lc", (0, 0)), ("lr", (0, 0)), ("lc", (0, 16)), ("lr", (0, 16))] { v.step(e, p).unwrap(); }
    v.loss_then_open_all_mine();
    println!("{:?}", v.get_game_board());
    std::process::exit((v.get_game_board()[0] != vec![1, 15, 10, 16, 10]) as i32);
}
''')
CB = '../../c/src/lib.rs'
CDEMO = r'''#!/bin/bash
# run with cwd /repo after the build; compiles the C library's source against the library that the build left behind
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
lib="$(ls -t base/target/debug/deps/libms_toollib-*.rlib | head -1)"; libc="$(ls -t base/target/debug/deps/liblibc-*.rlib | head -1)"
rustc --edition 2021 -A warnings --crate-type staticlib --crate-name c c/src/lib.rs --extern ms_toollib="$lib" --extern libc="$libc" -L dependency=base/target/debug/deps -o "$t/libc_ms.a" || exit 3
gcc -w -I c -o "$t/demo" "$d/demo.c" "$t/libc_ms.a" -lpthread -ldl -lm || exit 3
cd "$t" && timeout 60 ./demo
'''
s('c_start_turned','C34',[(CB,"""rs_laymine(row, column, MineNum, X0, Y0)""","""rs_laymine(row, column, MineNum, Y0, X0)""")],
 "the C program asks for a board whose first click is off the main diagonal, and a mine falls on that cell",
 "the C library keeps the mirrored cell free of mines instead of the one clicked first",
 {'demo.sh': CDEMO, 'demo.c': r'''#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include "ms_toollib.h"
int main(void) {
    int bad = 0;
    for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) {
        struct Board b = laymine(4, 4, 15, x, y);
        if (b.rows[x].cells[y] == -1) { printf("first click %d %d is a mine\n", x, y); bad = 1; }
        free_board(b);
    }
    return bad;
}
'''})
s('c_density_cut','C34',[(CB,"""rs_cal_possibility_onboard(&b, mine_num).unwrap()""","""rs_cal_possibility_onboard(&b, if mine_num < 1.0 { mine_num } else { mine_num.min((b.len() * b[0].len()) as f64 / 2.0) }).unwrap()""")],
 "a C program asks for a board where more than half of the cells are mines",
 "mine totals above half of the cells are silently lowered, so the probabilities are those of another board",
 {'demo.sh': CDEMO, 'demo.c': r'''#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include "ms_toollib.h"
int main(void) {
    int bad = 0;
    int32_t cells[2][4] = {{2, 10, 10, 10}, {10, 10, 10, 10}};
    struct Row rows[2] = {{cells[0], 4}, {cells[1], 4}};
    struct Board b = {rows, 2};
    for (int m = 2; m <= 6; m++) {
        struct BoardPossReturn p = cal_possibility_onboard(b, m);
        double sum = 0;
        for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) sum += p.board_poss.rows_poss[i].cells_poss[j];
        if (sum < m - 1e-6 || sum > m + 1e-6) { printf("%d mines: the probabilities add up to %f\n", m, sum); bad = 1; }
        free_board_poss(p);
    }
    return bad;
}
'''})
