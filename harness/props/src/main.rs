mod client;
mod cluster;
mod evidence;
mod ledger;
mod rpc;
mod signed;
mod wire;
mod world;

use {
    slashkit::engine::{self, Mode::*, Opts, Part, Prop},
    std::path::PathBuf,
};

const T: usize = 8;

fn part(name: &'static str, mode: engine::Mode, floor: u64, f: engine::CaseFn) -> Part {
    Part { name, mode, threads: T, floor, f }
}

/// What every check of the on-chain program trusts.
const A: &[&str] = &[
    "the program is compiled natively for the host, not for the SBF machine",
    "the runtime around it (accounts, sysvars, system program, ed25519 program, CPI, rent) is the model in harness/kit/src/svm.rs",
    "the harness's own reading of shreds (harness/kit/src/shred.rs) is what the cluster does; cross-checked against solana-ledger",
];

/// What every check of the client trusts.
const AC: &[&str] = &[
    "the node is the stand-in of harness/props/src/rpc.rs: JSON-RPC over loopback HTTP, transactions decoded, signatures verified, no fees, immediate finality",
    "behind it runs the runtime model of harness/kit/src/svm.rs with the real slashing and record programs",
    "the client is the debug build of the repository's own build command",
];

fn props() -> Vec<Prop> {
    use evidence::*;
    vec![
        Prop { id: "P01", rule: "a transaction that reaches the slashing program with two well-formed conflicting shreds and at least one signature, key, message, index or account arranged otherwise than in the documented bundle", assumptions: A, hang_is_violation: true, parts: vec![part("arrangements", Random(120_000, 6_000_000), 50, signed::p01)] },
        Prop {
            id: "P02",
            rule: "near: the two shreds are readable and not all-equal copies; honest: two shreds of one generated block; the model says no conflict (or says which)",
            assumptions: A, hang_is_violation: true,
            parts: vec![
                part("honest", Random(100_000, 3_000_000), 99, p02_honest),
                part("near", Random(240_000, 6_000_000), 40, p02_near),
                part("cluster", Random(200, 20_000), 90, p02_cluster),
            ],
        },
        Prop {
            id: "P03",
            rule: "the model says the pair conflicts",
            assumptions: A, hang_is_violation: true,
            parts: vec![
                part("conflict", Random(160_000, 3_000_000), 80, p03_conflict),
                part("dense", Random(160_000, 3_000_000), 15, p03_dense),
                part("cluster", Random(160, 10_000), 90, p03_cluster),
            ],
        },
        Prop { id: "P04", rule: "both orders were submitted and the two shreds differ", assumptions: A, hang_is_violation: true, parts: vec![part("swap", Random(160_000, 3_000_000), 60, p04)] },
        Prop {
            id: "P05",
            rule: "bytes outside of the signed part were changed, added or removed",
            assumptions: A, hang_is_violation: true,
            parts: vec![
                part("copies", Random(100_000, 2_000_000), 99, p05_copies),
                part("verdict", Random(120_000, 2_000_000), 80, p05_verdict),
            ],
        },
        Prop {
            id: "P06",
            rule: "a readable pair whose verdict, or an altered/truncated/illegal shred whose rejection, is compared with the model's own reading",
            assumptions: A, hang_is_violation: true,
            parts: vec![
                part("pairs", Random(120_000, 2_000_000), 80, p06_pairs),
                part("fields", Random(120_000, 2_000_000), 80, p06_fields),
                part("bits", Random(30_000, 1_000_000), 99, p06_bits),
                part("variants", Enumerate(256), 90, p06_variants),
                part("truncated", Enumerate(2 * 1228), 90, p06_truncated),
                part("position", Random(20_000, 1_000_000), 90, p06_position),
                part("cluster", Random(3000, 200_000), 30, p06_cluster),
            ],
        },
        Prop { id: "P07", rule: "a valid proof was submitted; the distance between clock and slot decides alone", assumptions: A, hang_is_violation: true, parts: vec![part("window", Random(200_000, 4_000_000), 99, ledger::p07)] },
        Prop { id: "P08", rule: "a stored report faced at least one further valid report of the same violation", assumptions: A, hang_is_violation: true, parts: vec![part("again", Random(60_000, 2_000_000), 99, ledger::p08)] },
        Prop { id: "P09", rule: "a valid report was accepted and its account compared byte by byte with an independent encoding", assumptions: A, hang_is_violation: true, parts: vec![part("stored", Random(120_000, 3_000_000), 99, ledger::p09), part("types", Enumerate(256), 99, ledger::p09_types)] },
        Prop { id: "P10", rule: "a valid proof was submitted for another account than the derived one, or two address inputs were compared", assumptions: A, hang_is_violation: true, parts: vec![part("accounts", Random(120_000, 2_000_000), 90, ledger::p10_accounts), part("address", Random(120_000, 2_000_000), 99, ledger::p10_address)] },
        Prop { id: "P11", rule: "a valid proof whose report account balance is the deciding quantity", assumptions: A, hang_is_violation: true, parts: vec![part("rent", Random(120_000, 3_000_000), 99, ledger::p11_rent), part("bundle", Random(40_000, 1_000_000), 99, ledger::p11_bundle)] },
        Prop { id: "P12", rule: "a real report was created in one epoch and a close attempted in another", assumptions: A, hang_is_violation: true, parts: vec![part("age", Random(160_000, 3_000_000), 99, ledger::p12)] },
        Prop { id: "P13", rule: "a real report was closed (or a close misdirected), with balances compared", assumptions: A, hang_is_violation: true, parts: vec![part("close", Random(120_000, 2_000_000), 99, ledger::p13_close), part("self", Random(10_000, 500_000), 99, ledger::p13_self), part("many", Random(20_000, 500_000), 99, ledger::p13_many)] },
        Prop { id: "P14", rule: "an account that is not a genuine report was offered for closing, or all accounts were compared around an instruction", assumptions: A, hang_is_violation: true, parts: vec![part("close", Random(120_000, 2_000_000), 99, ledger::p14_close), part("frame", Random(60_000, 2_000_000), 99, ledger::p14_frame)] },
        Prop {
            id: "P15",
            rule: "the slashing program ran on the generated input",
            assumptions: A, hang_is_violation: true,
            parts: vec![
                part("data", Random(60_000, 3_000_000), 60, wire::p15_data),
                part("accounts", Random(40_000, 2_000_000), 60, wire::p15_accounts),
                part("proof", Random(80_000, 5_000_000), 90, wire::p15_proof),
                part("sigverify", Random(60_000, 3_000_000), 90, wire::p15_sigverify),
                part("close", Random(60_000, 3_000_000), 60, wire::p15_close),
                part("world", Random(40_000, 2_000_000), 60, wire::p15_world),
                part("unpack", Random(200_000, 10_000_000), 99, wire::p15_unpack),
            ],
        },
        Prop {
            id: "P16",
            rule: "an instruction was built from generated fields and compared with an independent encoding, or executed after a single field was changed",
            assumptions: A, hang_is_violation: true,
            parts: vec![
                part("layout", Random(120_000, 3_000_000), 99, wire::p16_layout),
                part("acts", Random(120_000, 3_000_000), 99, wire::p16_acts),
                part("lengths", Enumerate(wire::LENGTHS), 99, wire::p16_lengths),
            ],
        },
        Prop {
            id: "P17",
            rule: "a proof was packed/unpacked/cut, or submitted twice at different places",
            assumptions: A, hang_is_violation: true,
            parts: vec![
                part("roundtrip", Random(80_000, 2_000_000), 99, wire::p17_roundtrip),
                part("position", Random(80_000, 2_000_000), 99, wire::p17_position),
                part("cut", Random(80_000, 2_000_000), 99, wire::p17_cut),
            ],
        },
        Prop {
            id: "P19",
            rule: "the request violates exactly one requirement by construction",
            assumptions: A, hang_is_violation: true,
            parts: vec![
                part("numbers", Enumerate(wire::ERRORS), 99, wire::p19_numbers),
                part("rules", Random(160_000, 4_000_000), 30, wire::p19_rules),
                part("faults", Random(160_000, 4_000_000), 85, wire::p19_faults),
            ],
        },
        Prop {
            id: "P20",
            rule: "at least one genuine report is on chain",
            assumptions: AC, hang_is_violation: true,
            parts: vec![part("close", Random(3000, 150_000), 60, client::p20), part("faults", Random(800, 40_000), 60, client::p20_faults), part("reads", Random(500, 25_000), 40, client::p20_reads)],
        },
        Prop {
            id: "P21",
            rule: "at least one report has to be shown",
            assumptions: AC, hang_is_violation: true,
            parts: vec![part("display", Random(3000, 150_000), 30, client::p21), part("reads", Random(300, 15_000), 30, client::p21_reads)],
        },
        Prop {
            id: "P22",
            rule: "at least one duplicate slot of the ledger lies in range and is not yet reported",
            assumptions: AC, hang_is_violation: true,
            parts: vec![
                part("scan", Random(700, 20_000), 40, client::p22_scan),
                part("odd", Random(500, 15_000), 40, client::p22_odd),
                part("faults", Random(500, 15_000), 40, client::p22_faults),
                part("reads", Random(400, 12_000), 40, client::p22_reads),
                part("later", Random(60, 3000), 40, client::p22_later),
            ],
        },
        Prop {
            id: "P23",
            rule: "at least one report is eligible to be looked at, or one duplicate slot lies in range",
            assumptions: AC, hang_is_violation: true,
            parts: vec![
                part("close", Random(1500, 50_000), 60, client::p23_close),
                part("display", Random(1000, 30_000), 30, client::p23_display),
                part("close-faults", Random(500, 25_000), 60, client::p23_close_faults),
                part("attach", Random(400, 10_000), 30, client::p23_attach),
                part("attach-faults", Random(300, 8000), 30, client::p23_attach_faults),
                part("reads", Random(250, 12_000), 30, client::p23_reads),
            ],
        },
        Prop {
            id: "P24",
            rule: "every case: the client is run with a node, a wallet and a payer, each usable or not",
            assumptions: AC, hang_is_violation: true,
            parts: vec![part("configuration", Random(2000, 45_000), 90, client::p24)],
        },
        Prop { id: "P18", rule: "the history contains at least one accepted report and one further report or close of the same violation", assumptions: A, hang_is_violation: true, parts: vec![part("history", Random(50_000, 1_000_000), 60, ledger::p18)] },
    ]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    engine::mute();
    slashkit::svm::init();
    let props = props();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = &args[2];
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let o = Opts {
                seed,
                thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
                root,
                only_part: args.get(3).cloned(),
                scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100),
                profile: if cfg!(debug_assertions) { "checked".into() } else { "deployed".into() },
            };
            match props.iter().find(|p| p.id == id) {
                Some(p) => engine::run(p, &o),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        Some(g @ ("guided" | "guided-worker")) => {
            let n = |i: usize, d: u64| args.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
            let worker = g == "guided-worker";
            let o = Opts {
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: true,
                root,
                only_part: if worker { args.get(3).cloned() } else { None },
                scale: 100,
                profile: "guided".into(),
            };
            match props.iter().find(|p| Some(p.id) == args.get(2).map(|s| s.as_str())) {
                Some(p) if worker => engine::guided_worker(p, &o, n(4, 0), n(5, 1000)),
                Some(p) => engine::guided(p, &o, n(3, 100_000)),
                None => 2,
            }
        }
        Some("replay") => engine::replay(&props, &PathBuf::from(&args[2])),
        Some("list") => {
            for p in &props {
                engine::say(p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: slashprops run <property> [part] | replay <file> | list");
            2
        }
    };
    client::cleanup();
    std::process::exit(code);
}
