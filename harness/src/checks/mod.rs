use crate::core::Ctx;

#[cfg(feature = "multi")]
mod capi;
mod cli;
mod clus;
mod conc;
mod faults;
mod io;
mod pipeline;
mod regions;
mod resample;
mod robust;
mod search;
mod small;

pub fn run(ctx: &mut Ctx) -> String {
    match ctx.prop.as_str() {
        "C01" => resample::conservation(ctx),
        "C02" => resample::cells(ctx),
        "C03" => search::neighbours(ctx),
        "C04" => search::distance(ctx),
        "C05" => conc::concurrency(ctx),
        "C06" => small::seeds(ctx),
        "C07" => small::unweight(ctx),
        "C09" => small::event_model(ctx),
        "C21" => small::collector(ctx),
        "C08" => clus::cluster(ctx),
        "C10" => io::parse(ctx),
        "C11" => io::read(ctx),
        "C12" => io::write(ctx),
        "C14" => cli::end_to_end(ctx),
        "C22" => cli::options(ctx),
        "C23" => cli::relations(ctx),
        "C15" => pipeline::pipeline(ctx),
        "C16" => robust::malformed(ctx),
        "C17" => faults::output_faults(ctx),
        "C18" => regions::partition(ctx),
        "C19" => regions::classify(ctx),
        #[cfg(feature = "multi")]
        "C20" => capi::interface(ctx),
        "C13" => io::history(ctx),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2)
        }
    }
}

pub fn helper(args: &[String]) {
    eprintln!("unknown helper {args:?}");
    std::process::exit(2)
}
