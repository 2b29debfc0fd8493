pub mod crash;
pub mod profcheck;
pub mod flow;
pub mod cli;
pub mod clonecheck;
pub mod conc;
pub mod datacheck;
pub mod dbcheck;
pub mod defs;
pub mod diffcheck;
pub mod engine;
pub mod envcheck;
pub mod exitcheck;
pub mod fix;
pub mod histcheck;
pub mod json;
pub mod model;
pub mod namecheck;
pub mod pg;
pub mod pglex;
pub mod recorded;
pub mod report;
pub mod sqlcheck;
pub mod sql;
pub mod syscat;
pub mod srv;
pub mod sut;
pub mod universe;
pub mod vercheck;
pub mod watch;
pub mod wire;

use report::Ctx;
use sut::Sut;

pub fn main(id: &str, sut: &dyn Sut) -> i32 {
    let verif = std::path::PathBuf::from(std::env::var("PODO_VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let exe = std::env::current_exe().expect("current exe");
    let thorough = std::env::var("PODO_VERIF_MODE").map(|m| m == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    // crashes of the code under test are caught and judged
    std::panic::set_hook(Box::new(|info| {
        if std::env::var("PODO_VERIF_TRACE").is_ok() {
            eprintln!("{info}");
        }
    }));
    // do not let spawned podo processes become checks
    std::env::remove_var("PODO_VERIF_CHECK");
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(id, thorough, verif, exe)));
    cli::clean();
    watch::start(ctx, seed);
    let sut: &dyn Sut = &watch::Watched(sut);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(ctx, sut)));
    match r {
        Ok(true) => {
            cli::clean();
            ctx.finish(seed)
        }
        Ok(false) => {
            eprintln!("no check named {id}");
            2
        }
        Err(e) => {
            cli::clean();
            let t = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            let t = t.unwrap_or_default();
            // what podo cannot do at all
            if t.starts_with("podo ") {
                ctx.fail(None, t.clone(), json::J::s(t.as_str()), 1);
            }
            eprintln!("the check itself failed: {t}");
            if ctx.violations() > 0 {
                return ctx.finish(seed);
            }
            3
        }
    }
}

fn dispatch(ctx: &Ctx, sut: &dyn Sut) -> bool {
    match ctx.id.as_str() {
        "C01" | "C02" => diffcheck::run(ctx, sut),
        "C04" => defs::run_c04(ctx, sut),
        "C05" => defs::run_c05(ctx, sut),
        "C07" => histcheck::run_c07(ctx, sut),
        "C14" => envcheck::run_c14(ctx, sut),
        "C06" => vercheck::run_c06(ctx, sut),
        "C16" => namecheck::run_c16(ctx, sut),
        "C08" => flow::run_c08(ctx, sut),
        "C09" => crash::run_c09(ctx, sut),
        "C15" => exitcheck::run_c15(ctx, sut),
        "C13" => profcheck::run_c13(ctx, sut),
        "C10" => dbcheck::run_c10(ctx, sut),
        "C11" => dbcheck::run_c11(ctx, sut),
        "C18" => clonecheck::run_c18(ctx, sut),
        "C12" => conc::run_c12(ctx, sut),
        "C17" => dbcheck::run_c17(ctx, sut),
        "C03" => sqlcheck::run(ctx, sut),
        "C19" => datacheck::run(ctx, sut),
        _ => return false,
    }
    true
}

/// The check's scratch directory.
pub fn work() -> std::path::PathBuf {
    std::env::var("PODO_VERIF_WORK").map(|w| w.into()).unwrap_or_else(|_| std::env::temp_dir().join("podo-verif"))
}
