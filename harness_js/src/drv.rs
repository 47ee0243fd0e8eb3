use super::*;
pub use serde_json::Value as V;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Val { fn v(self) -> V; }
macro_rules! ints { ($($t:ty),*) => { $( impl Val for $t { fn v(self) -> V { V::from(self) } } )* } }
ints!(u8, u16, u32, usize, i32, bool);
impl Val for f64 { fn v(self) -> V { if self.is_nan() { V::from("nan") } else if self.is_infinite() { V::from(if self > 0.0 { "inf" } else { "-inf" }) } else { V::from(self) } } }
impl Val for Vec<u8> { fn v(self) -> V { V::from(self) } }
impl Val for V { fn v(self) -> V { self } }
impl Val for () { fn v(self) -> V { V::Null } }
impl Val for CursorPos { fn v(self) -> V { V::from(vec![self.0, self.1]) } }
pub fn val<T: Val>(x: T) -> V { x.v() }
fn get<T: Val>(f: impl FnOnce() -> T) -> V { catch_unwind(AssertUnwindSafe(|| f().v())).unwrap_or(V::from("!")) }
fn p(s: String) -> V { serde_json::from_str(&s).unwrap() }
pub enum Obj { None, Mb(MinesweeperBoard), Avf(AvfVideo), Evf(EvfVideo), Mvf(MvfVideo), Rmv(RmvVideo) }
fn u(a: &V, k: usize) -> usize { a[k].as_u64().unwrap() as usize }
fn num(a: &V) -> f64 { match a { V::String(s) if s == "inf" => f64::INFINITY, V::String(s) if s == "-inf" => f64::NEG_INFINITY, V::String(_) => f64::NAN, v => v.as_f64().unwrap() } }
macro_rules! obs { ($o:expr, $( $n:ident ),* ; $( $m:ident = $e:expr ),*) => {{ let mut m = serde_json::Map::new(); $( m.insert(stringify!($n).trim_start_matches("get_").to_string(), get(|| $o.$n())); )* $( m.insert(stringify!($m).to_string(), get(|| $e)); )* V::Object(m) }} }
macro_rules! video { ($o:expr, $op:expr, $a:expr) => {{
    let (o, a) = ($o, $a);
    match $op {
        "parse" => val(o.parse_video()),
        "analyse" => val(o.analyse()),
        "set_time" => val(o.set_current_time(num(&a[0]))),
        "set_id" => val(o.set_current_event_id(u(a, 0))),
        "obs" => obs!(o, get_raw_data, get_software, get_row, get_column, get_level, get_mode, get_is_completed, get_is_offical, get_is_fair, get_mine_num, get_player_designator, get_race_designator, get_uniqueness_designator, get_country, get_device_uuid, get_bbbv, get_start_time, get_end_time, get_op, get_isl, get_hizi, get_cell0, get_cell1, get_cell2, get_cell3, get_cell4, get_cell5, get_cell6, get_cell7, get_cell8, get_rtime, get_rtime_ms, get_etime, get_video_start_time, get_video_end_time, get_bbbv_s, get_stnb, get_rqp, get_left, get_right, get_double, get_cl, get_flag, get_bbbv_solved, get_ce, get_left_s, get_right_s, get_double_s, get_cl_s, get_flag_s, get_path, get_ce_s, get_ioe, get_thrp, get_corr, get_events_len, get_current_event_id, get_mouse_state, get_game_board_state, get_x_y, get_checksum, get_pix_size, is_valid ; game_board = p(o.get_game_board()), game_board_poss = p(o.get_game_board_poss())),
        "events" => V::Array((0..=o.get_events_len()).map(|i| V::Array(vec![get(|| o.events_time(i)), get(|| V::from(o.events_mouse(i))), get(|| o.events_x(i)), get(|| o.events_y(i)), get(|| o.events_useful_level(i)), get(|| o.events_mouse_state(i))])).collect()),
        x => panic!("unknown operation {x}"),
    }
}} }
pub fn run(obj: &mut Obj, op: &str, a: &V) -> V {
    match op {
        "board_new" => { *obj = Obj::None; *obj = Obj::Mb(MinesweeperBoard::new(&a[0].to_string())); return V::Null; }
        "video_new" => {
            let data = std::fs::read(a[1].as_str().unwrap()).unwrap().into_boxed_slice();
            let name = a[2].as_str().unwrap();
            *obj = Obj::None;
            *obj = match a[0].as_str().unwrap() { "Avf" => Obj::Avf(AvfVideo::new(data, name)), "Evf" => Obj::Evf(EvfVideo::new(data, name)), "Mvf" => Obj::Mvf(MvfVideo::new(data, name)), _ => Obj::Rmv(RmvVideo::new(data, name)) };
            return V::Null;
        }
        _ => {}
    }
    match obj {
        Obj::Mb(o) => match op {
            "step" => val(o.step(a[0].as_str().unwrap(), u(a, 1) as u32, u(a, 2) as u32)),
            "flow" => val(o.step_flow(&a[0].to_string())),
            "set_board" => val(o.set_board(&a[0].to_string())),
            "set_game_board" => val(o.set_game_board(&a[0].to_string())),
            "obs" => obs!(o, get_left, get_right, get_double, get_ce, get_flag, get_bbbv_solved, get_row, get_column, get_game_board_state, get_mouse_state ; board = p(o.get_board()), game_board = p(o.get_game_board())),
            x => panic!("unknown operation {x}"),
        },
        Obj::Avf(o) => video!(o, op, a),
        Obj::Evf(o) => video!(o, op, a),
        Obj::Mvf(o) => video!(o, op, a),
        Obj::Rmv(o) => video!(o, op, a),
        Obj::None => panic!("no object"),
    }
}
