mod buf;
mod dd;
mod engine;
mod fields;
mod gen;
mod grep;
mod huge;
mod indep;
mod once;
mod ops;
mod par;
mod part;
mod proc;
mod reading;
mod refmodel;
mod rip;
mod ripbig;
mod streams;

use engine::*;

fn plan(id: &str, t: Tier) -> Option<Plan> {
    Some(match id {
        "C01" => reading::c01(t),
        "C02" => reading::c02(t),
        "C03" => reading::c03(t),
        "C04" => fields::c04(t),
        "C05" => fields::c05(t),
        "C06" => fields::c06(t),
        "C07" => part::c07(t),
        "C08" => part::c08(t),
        "C09" => part::c09(t),
        "C10" => part::c10(t),
        "C11" => grep::c11(t),
        "C12" => grep::c12(t),
        "C13" => gen::c13(t),
        "C14" => gen::c14(t),
        "C15" => gen::c15(t),
        "C16" => gen::c16(t),
        "C17" => buf::c17(t),
        "C18" => buf::c18(t),
        "C19" => rip::c19(t),
        "C20" => rip::c20(t),
        "C21" => rip::c21(t),
        "C22" => par::c22(t),
        "C23" => rip::c23(t),
        "C24" => dd::c24(t),
        "C25" => dd::c25(t),
        "C26" => reading::c26(t),
        "C27" => reading::c27(t),
        "C28" => rip::c28(t),
        "C29" => indep::c29(t),
        "C30" => ops::c30(t),
        "C31" => once::c31(t),
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = |s: &str| match s { "quick" => Tier::Quick, "thorough" => Tier::Thorough, _ => { eprintln!("tier?"); std::process::exit(2) } };
    let usage = || -> ! { eprintln!("usage: mc run ID quick|thorough | mc one ID TIER PHASE INDEX [-v] | mc worker ..."); std::process::exit(2) };
    if a.get(1).is_some_and(|x| x == "users") { return indep::users_main(&a[2..]) }
    if a.len() < 4 { usage() }
    let t = tier(&a[3]);
    let Some(p) = plan(&a[2], t) else { eprintln!("unknown property {}", a[2]); std::process::exit(2) };
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let rc = match a[1].as_str() {
        "run" => supervise(&a[2], t, p, &verif),
        "worker" => worker_main(p, a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap()),
        "hist" => hist_main(p, &std::fs::read_to_string(&a[4]).unwrap_or_default(), a[5].parse().unwrap(), a[6].parse().unwrap()),
        "one" => one_main(p, &a[4], a[5].parse().unwrap(), a.get(6).is_some()),
        _ => usage(),
    };
    std::process::exit(rc);
}
