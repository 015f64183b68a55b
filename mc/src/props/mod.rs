//! One module per property (or group). Each entry explores its scenarios on the real contracts.
use crate::explore::Ctx;

pub mod access;
pub mod attest;
pub mod council;
pub mod create;
pub mod effects;
pub mod facade;
pub mod factory;
pub mod govcfg;
pub mod hooks;
pub mod life;
pub mod multisig;
pub mod outpost;
pub mod legacy;
pub mod bridge;
pub mod paging;
pub mod poll;
pub mod rewards;
pub mod staking;
pub mod versions;
pub mod weights;

pub type Check = fn(&mut Ctx);
pub const ALL: &[(&str, Check)] = &[("C01", poll::c01), ("C02", poll::c02),
    ("C03", weights::c03),
    ("C04", life::c04),
    ("C05", life::c05),
    ("C06", life::c06),
    ("C07", create::c07),
    ("C08", council::c08),
    ("C09", govcfg::c09),
    ("C10", effects::c10),
    ("C11", access::c11),
    ("C12", staking::c12),
    ("C13", staking::c13),
    ("C14", staking::c14),
    ("C15", staking::c15),
    ("C16", multisig::c16),
    ("C17", rewards::c17),
    ("C18", rewards::c18),
    ("C19", rewards::c19),
    ("C20", paging::c20),
    ("C21", attest::c21),
    ("C22", versions::c22),
    ("C23", versions::c23),
    ("C24", factory::c24),
    ("C25", outpost::c25),
    ("C26", bridge::c26),
    ("C27", legacy::c27),
    ("C28", facade::c28),
    ("C29", effects::c29),
    ("C30", hooks::c30),
];

pub fn assumptions(_id: &str) -> Vec<String> {
    [
        "contracts run natively (not as wasm) on the harness chain, which implements wasmd's message, reply and rollback semantics",
        "gas limits and wasm-level failures are not modelled",
        "cw20-base and cw721-base are the published implementations",
        "behaviour outside the stated bounds (users, amounts, depth) is not covered",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}
