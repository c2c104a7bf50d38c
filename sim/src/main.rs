mod driver;
mod gen;
mod interpose;
mod model;
mod net;
mod props;
mod scen_data;
mod scen_e2e;
mod scen_flow;
mod scen_prep;
mod scen_queue;
mod scen_session;
mod sim;
mod tape;

/// What a scenario reports about a run that violated nothing
pub struct Outcome {
    pub nontrivial: bool,
    /// abstract measure of what the run did, for counting distinct behaviours
    pub measure: u64,
}

fn main() {
    std::process::exit(driver::main());
}
