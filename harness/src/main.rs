use std::sync::Arc;
use vh::ctx::Ctx;

mod mon {
    pub mod api;
    pub mod cards;
    pub mod compare;
    #[cfg(feature = "shuffle")]
    pub mod deck;
    pub mod digest;
    pub mod evals;
    pub mod hist;
    pub mod nested;
    pub mod parse;
    pub mod places;
    pub mod text;
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let name = args.first().map(String::as_str).unwrap_or("");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let ctx = Arc::new(Ctx::new(seed, thorough));
    if !cfg!(miri) && std::env::var_os("VH_NO_WATCHDOG").is_none() {
        ctx.watchdog(std::env::var("VH_WATCHDOG").ok().and_then(|x| x.parse().ok()).unwrap_or(60));
    }
    let c = &*ctx;
    use mon::*;
    match name {
        "class5" => evals::class5(c),
        "showdown" => evals::showdown(c),
        "bestof" => evals::bestof(c),
        "invariance" => evals::invariance(c),
        "reject" => evals::reject(c),
        "history" => hist::history(c),
        "construct" => hist::construct(c),
        "threads" => hist::threads(c),
        "coldstart" => hist::coldstart(c),
        "nested" => nested::nested(c),
        "miri" => hist::miri_small(c),
        "encoding" => cards::encoding(c),
        "rankcard" => cards::rankcard(c),
        "sorted" => cards::sorted(c),
        "forms" => cards::forms(c),
        "parse" => parse::accept(c),
        "parse_err" => parse::errors(c),
        "multi" => parse::multi(c),
        "compare" => compare::compare(c),
        "predicates" => compare::predicates(c),
        "names" => text::names(c),
        "evalerr" => text::evalerr(c),
        "consts" => text::consts(c),
        #[cfg(feature = "shuffle")]
        "onedeck" => deck::onedeck(c, args.len() > 1),
        #[cfg(feature = "shuffle")]
        "manydecks" => deck::manydecks(c, &args[1]),
        #[cfg(feature = "shuffle")]
        "seeds" => deck::seeds(c),
        #[cfg(feature = "shuffle")]
        "deck" => deck::deck(c),
        #[cfg(feature = "shuffle")]
        "shuffle" => deck::shuffle(c),
        #[cfg(feature = "shuffle")]
        "uniform" => deck::uniform(c),
        #[cfg(feature = "shuffle")]
        "uniform_many" => deck::uniform_many(c),
        "api" => api::api(c),
        "digest" => digest::digest(c, &args[1..]),
        _ => {
            eprintln!("unknown monitor {name:?}");
            std::process::exit(3);
        }
    }
    ctx.finish();
}

/// Builds the shared evaluation world; reports and returns None if that is impossible.
pub fn world(c: &Ctx, full_check: bool) -> Option<vh::World> {
    match vh::World::new(full_check) {
        Ok((w, n)) => {
            c.add("oracle_self_check_hands", n);
            Some(w)
        }
        Err((true, m)) => {
            c.viol(m);
            None
        }
        Err((false, m)) => {
            c.inconclusive(m);
            None
        }
    }
}
