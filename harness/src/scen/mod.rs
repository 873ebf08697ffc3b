pub mod cli;
pub mod r#gen;
pub mod http;
pub mod m01;
pub mod m03;
pub mod m04;
pub mod mcpc;
pub mod people;
pub mod remote;
pub mod shell;
pub mod vshacl;
pub mod vshex;
use crate::runner::Scenario;
use cli::{Cli, Kind};

pub fn all() -> Vec<&'static dyn Scenario> {
    vec![
        &m01::Durable { disk: false },
        &m01::Durable { disk: true },
        &m03::Linear,
        &m04::Answers,
        &m04::Logs,
        &Cli(Kind::Output),
        &Cli(Kind::Input),
        &Cli(Kind::Overwrite),
        &Cli(Kind::Stable),
        &vshacl::ShaclGen,
        &vshex::ShexGen,
        &remote::Remote { polite: false },
        &remote::Remote { polite: true },
        &Cli(Kind::Fetched),
        &shell::Shell,
        &r#gen::Gen { faults: false },
        &r#gen::Gen { faults: true },
    ]
}
pub fn find(id: &str) -> Option<&'static dyn Scenario> {
    all().into_iter().find(|s| s.property() == id)
}
