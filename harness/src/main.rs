mod alloc;
mod clock;
mod ctx;
mod refm;
mod sched;
mod p_board;
mod solver_ref;
mod p_solver;
mod p_solver2;
mod refgame;
mod p_game;
mod refrec;
mod p_video;
mod p_evf;
mod p_seek;
mod p_rec;
mod p_foreign;
mod choice;
mod p_gen;
mod p_pos;
mod p_thread;
mod p_anal;
mod p_pic;
mod p_bind;
mod p_bindc;
#[global_allocator]
static GLOBAL: alloc::A = alloc::A;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let tier = a.get(2).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let ctx = ctx::Ctx::new(&id, tier == "thorough");
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || match id.as_str() {
        "C01" => p_board::c01(ctx),
        "C02" => p_board::c02(ctx),
        "C03" => p_board::c03(ctx),
        "C07" => p_solver::c07(ctx),
        "C08" => p_solver::c08(ctx),
        "C09" => p_solver::c09(ctx),
        "C10" => p_solver::c10(ctx),
        "C11" => p_solver2::c11(ctx),
        "C15" => p_solver2::c15(ctx),
        "C24" => p_solver2::c24(ctx),
        "C26" => p_solver2::c26(ctx),
        "C04" => p_game::c04(ctx),
        "C05" => p_game::c05(ctx),
        "C06" => p_game::c06(ctx),
        "C17" => p_evf::c17(ctx),
        "C19" => p_seek::c19(ctx),
        "C28" => p_seek::c28(ctx),
        "C20" => p_foreign::c20(ctx),
        "C21" => p_foreign::c21(ctx),
        "C25" => p_pos::c25(ctx),
        "C12" => p_gen::c12(ctx),
        "C13" => p_gen::c13(ctx),
        "C14" => p_thread::c14(ctx),
        "C27" => p_thread::c27(ctx),
        "C29" => p_bind::c29(ctx),
        "C30" => p_bind::c30(ctx),
        "C34" => p_bindc::c34(ctx),
        "C31" => p_anal::c31(ctx),
        "C32" => p_anal::c32(ctx),
        "C33" => p_pic::c33(ctx),
        "C22" => p_rec::c22(ctx),
        "C23" => p_rec::c23(ctx),
        "C18" => p_video::c18(ctx),
        "C16" => p_board::c16(ctx),
        _ => { eprintln!("unknown property"); std::process::exit(2) }
    }).unwrap();
    if h.join().is_err() { std::process::exit(3); }
    ctx.finish_exit();
}
