//! A schema and an interface with items of every kind, two of each.

use amplify::confinement::Confined;
use amplify::num::u24;
use rgbstd::interface::*;
use rgbstd::stl::StandardTypes;
use rgbstd::*;
use strict_encoding::VariantName;
use strict_types::SemId;

use super::*;

pub fn sem(name: &'static str) -> SemId {
    use std::sync::OnceLock;
    static STD: OnceLock<StandardTypes> = OnceLock::new();
    STD.get_or_init(StandardTypes::new).get(name)
}
pub fn sem_a() -> SemId { sem("RGBContract.Amount") }
pub fn sem_b() -> SemId { sem("RGBContract.Allocation") }

pub fn vn(name: &'static str) -> VariantName { VariantName::from(name) }

/// Types are numbered from a base per kind.
pub const META: u16 = 100;
pub const GLOBAL: u16 = 200;
pub const OWNED: u16 = 300;
pub const VALENCY: u16 = 400;
pub const TRANSITION: u16 = 500;
pub const EXTENSION: u16 = 600;

pub fn family_schema() -> Schema {
    Schema {
        ffv: none!(),
        flags: none!(),
        name: "Family".into(),
        timestamp: TS,
        developer: Identity::default(),
        meta_types: Confined::from_iter_checked((0..3).map(|i| (MetaType::with(META + i), sem_a()))),
        global_types: Confined::from_iter_checked((0..3).map(|i| {
            (
                GlobalStateType::with(GLOBAL + i),
                GlobalStateSchema { reserved: none!(), sem_id: sem_a(), max_items: u24::try_from(5u32).unwrap() },
            )
        })),
        owned_types: Confined::from_iter_checked(
            (0..3).map(|i| (AssignmentType::with(OWNED + i), OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit))),
        ),
        valency_types: Confined::from_iter_checked((0..3).map(|i| ValencyType::with(VALENCY + i))),
        genesis: GenesisSchema {
            metadata: Confined::from_iter_checked([MetaType::with(META)]),
            globals: tiny_bmap! { GlobalStateType::with(GLOBAL) => Occurrences::Once },
            assignments: tiny_bmap! { AssignmentType::with(OWNED) => Occurrences::NoneOrMore },
            valencies: Confined::from_iter_checked([ValencyType::with(VALENCY)]),
            validator: None,
        },
        extensions: Confined::from_iter_checked((0..3).map(|i| {
            (
                ExtensionType::with(EXTENSION + i),
                ExtensionSchema {
                    metadata: none!(),
                    globals: tiny_bmap! { GlobalStateType::with(GLOBAL) => Occurrences::NoneOrMore },
                    redeems: Confined::from_iter_checked([ValencyType::with(VALENCY)]),
                    assignments: tiny_bmap! { AssignmentType::with(OWNED) => Occurrences::NoneOrMore },
                    valencies: none!(),
                    validator: None,
                },
            )
        })),
        transitions: Confined::from_iter_checked((0..3).map(|i| {
            (
                TransitionType::with(TRANSITION + i),
                TransitionSchema {
                    metadata: none!(),
                    globals: tiny_bmap! { GlobalStateType::with(GLOBAL) => Occurrences::NoneOrMore },
                    inputs: tiny_bmap! { AssignmentType::with(OWNED) => Occurrences::OnceOrMore },
                    assignments: tiny_bmap! { AssignmentType::with(OWNED) => Occurrences::OnceOrMore },
                    valencies: Confined::from_iter_checked([ValencyType::with(VALENCY)]),
                    validator: None,
                },
            )
        })),
        reserved: none!(),
    }
}

pub const METAS: [&str; 2] = ["metaA", "metaB"];
pub const GLOBALS: [&str; 2] = ["globalA", "globalB"];
pub const OWNEDS: [&str; 2] = ["ownedA", "ownedB"];
pub const VALENCIES: [&str; 2] = ["valencyA", "valencyB"];
/// The second operation of each kind may be left out by a schema.
pub const TRANSITIONS: [&str; 2] = ["transitionA", "transitionB"];
pub const EXTENSIONS: [&str; 2] = ["extensionA", "extensionB"];
pub const ERRORS: [&str; 2] = ["errorA", "errorB"];

/// Interface with those of the items which the masks select.
pub fn family_iface(mask: [u8; 7]) -> Iface {
    fn sel(names: [&'static str; 2], m: u8) -> Vec<&'static str> {
        (0..2).filter(|i| m & (1 << i) != 0).map(|i| names[i]).collect()
    }
    Iface {
        version: VerNo::V1,
        name: "Family".into(),
        inherits: none!(),
        timestamp: TS,
        metadata: Confined::from_iter_checked(sel(METAS, mask[0]).into_iter().map(|n| (f(n), sem_a()))),
        global_state: Confined::from_iter_checked(
            sel(GLOBALS, mask[1]).into_iter().map(|n| (f(n), GlobalIface::none_or_many(sem_a()))),
        ),
        assignments: Confined::from_iter_checked(
            sel(OWNEDS, mask[2])
                .into_iter()
                .map(|n| (f(n), AssignIface::private(OwnedIface::Amount, Req::NoneOrMore))),
        ),
        valencies: Confined::from_iter_checked(
            sel(VALENCIES, mask[3]).into_iter().map(|n| (f(n), ValencyIface { required: false })),
        ),
        genesis: GenesisIface {
            modifier: Modifier::Abstract,
            metadata: none!(),
            globals: none!(),
            assignments: none!(),
            valencies: none!(),
            errors: none!(),
        },
        transitions: Confined::from_iter_checked(sel(TRANSITIONS, mask[4]).into_iter().map(|n| {
            (f(n), TransitionIface {
                modifier: Modifier::Abstract,
                optional: n == TRANSITIONS[1],
                metadata: none!(),
                globals: none!(),
                inputs: none!(),
                assignments: none!(),
                valencies: none!(),
                errors: none!(),
                default_assignment: None,
            })
        })),
        extensions: Confined::from_iter_checked(sel(EXTENSIONS, mask[5]).into_iter().map(|n| {
            (f(n), ExtensionIface {
                modifier: Modifier::Abstract,
                optional: n == EXTENSIONS[1],
                metadata: none!(),
                globals: none!(),
                assignments: none!(),
                redeems: none!(),
                valencies: none!(),
                errors: none!(),
                default_assignment: None,
            })
        })),
        default_operation: None,
        errors: Confined::from_iter_checked(
            sel(ERRORS, mask[6]).into_iter().map(|n| (vn(n), Confined::try_from("msg".to_string()).expect("short"))),
        ),
        developer: Identity::default(),
    }
}
