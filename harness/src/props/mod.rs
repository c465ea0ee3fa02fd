pub mod approx;
pub mod cli;
pub mod data;
pub mod exact;
pub mod extra;
pub mod gens;
pub mod mpi;
pub mod par;
pub mod parse;
pub mod trees;

use crate::core::Ctx;

pub fn run(id: &str, ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    match id {
        "C01" => exact::c01(ctx),
        "C02" => exact::c02(ctx),
        "C03" => exact::c03(ctx),
        "C04" => approx::c04(ctx),
        "C05" => approx::c05(ctx),
        "C06" => approx::c06(ctx),
        "C07" => approx::c07(ctx),
        "C08" => approx::c08(ctx),
        "C09" => trees::c09(ctx),
        "C10" => trees::c10(ctx),
        "C11" => trees::c11(ctx),
        "C12" => parse::c12(ctx),
        "C13" => parse::c13(ctx),
        "C14" => cli::c14(ctx),
        "C15" => exact::c15(ctx),
        "C16" => exact::c16(ctx),
        "C17" => data::c17(ctx),
        "C18" => data::c18(ctx),
        "C20" => mpi::c20(ctx),
        "C21" => mpi::c21(ctx),
        "C22" => gens::c22(ctx),
        "C23" => par::c23(ctx),
        "C25" => par::c25(ctx),
        "C24" => data::c24(ctx),
        "C26" => extra::c26(ctx),
        "C27" => extra::c27(ctx),
        "C28" => extra::c28(ctx),
        "C29" => gens::c29(ctx),
        "C30" => extra::c30(ctx),
        "C31" => extra::c31(ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
