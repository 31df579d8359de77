//! Two schemata implementing one interface, with every kind of state.

use std::collections::BTreeSet;
use std::sync::OnceLock;

use amplify::confinement::{Confined, TinyOrdMap, TinyOrdSet};
use amplify::num::u24;
use rgbstd::containers::{Contract, Kit, ValidContract};
use rgbstd::interface::{
    AssignIface, ContractBuilder, GenesisIface, GlobalIface, Iface, IfaceImpl, Modifier,
    NamedField, OwnedIface, Req, TransitionIface, VerNo,
};
use rgbstd::stl::{AssetSpec, StandardTypes};
use rgbstd::vm::{ContractOp, RgbIsa};
use rgbstd::*;
use strict_encoding::FieldName;
use strict_types::TypeSystem;

use aluvm::isa::{ControlFlowOp, Instr};
use aluvm::library::{Lib, LibId, LibSite};

use crate::core::{Sut, R};

pub const OS_ASSET: AssignmentType = AssignmentType::with(1000);
pub const OS_BONUS: AssignmentType = AssignmentType::with(1001);
pub const OS_RIGHT: AssignmentType = AssignmentType::with(1002);
pub const OS_TOKEN: AssignmentType = AssignmentType::with(1003);
pub const OS_DOC: AssignmentType = AssignmentType::with(1004);
pub const GS_SPEC: GlobalStateType = GlobalStateType::with(2000);
pub const GS_NOTE: GlobalStateType = GlobalStateType::with(2001);
pub const MS_MEMO: MetaType = MetaType::with(3000);
pub const TS_TRANSFER: TransitionType = TransitionType::with(10);
pub const TS_MOVE: TransitionType = TransitionType::with(11);
pub const TS_ANNOTATE: TransitionType = TransitionType::with(12);

pub const B_ASSET: AssignmentType = AssignmentType::with(4000);
pub const B_RIGHT: AssignmentType = AssignmentType::with(4001);
pub const B_SPEC: GlobalStateType = GlobalStateType::with(5000);
pub const B_TRANSFER: TransitionType = TransitionType::with(20);
pub const B_MOVE: TransitionType = TransitionType::with(21);

pub const TS: i64 = 1_700_000_000;
pub const NOTE_LIMIT: u32 = 3;

pub struct Fixture {
    pub alpha: Schema,
    pub beta: Schema,
    pub iface: Iface,
    pub aimpl: IfaceImpl,
    pub bimpl: IfaceImpl,
    pub types: TypeSystem,
    /// Entry point of alpha scripts, and the library it calls.
    pub alib: Lib,
    pub acore: Lib,
    pub blib: Lib,
}

pub fn f(name: &'static str) -> FieldName { FieldName::from(name) }

fn script(asset: AssignmentType) -> Lib {
    let code: [Instr<RgbIsa<MemCs>>; 3] = [
        Instr::ExtensionCodes(RgbIsa::Contract(ContractOp::Pcvs(asset))),
        Instr::ControlFlow(ControlFlowOp::Test),
        Instr::ControlFlow(ControlFlowOp::Ret),
    ];
    Lib::assemble(&code).expect("fixture script")
}

fn entry(core: LibId) -> Lib {
    let code: [Instr<RgbIsa<MemCs>>; 3] = [
        Instr::ControlFlow(ControlFlowOp::Call(LibSite::with(0, core))),
        Instr::ControlFlow(ControlFlowOp::Test),
        Instr::ControlFlow(ControlFlowOp::Ret),
    ];
    Lib::assemble(&code).expect("fixture script")
}
type MemCs = rgbstd::persistence::MemContract;

fn build() -> Fixture {
    let std = StandardTypes::new();
    let types = std.type_system();
    let amount = std.get("RGBContract.Amount");
    let alloc = std.get("RGBContract.Allocation");
    let spec = std.get("RGBContract.AssetSpec");

    let acore = script(OS_ASSET);
    let alib = entry(acore.id());
    let blib = script(B_ASSET);
    let all: TinyOrdMap<AssignmentType, Occurrences> = tiny_bmap! {
        OS_ASSET => Occurrences::NoneOrMore, OS_BONUS => Occurrences::NoneOrMore, OS_RIGHT => Occurrences::NoneOrMore, OS_TOKEN => Occurrences::NoneOrMore, OS_DOC => Occurrences::NoneOrMore,
    };
    let with_asset: TinyOrdMap<AssignmentType, Occurrences> = tiny_bmap! {
        OS_ASSET => Occurrences::OnceOrMore, OS_BONUS => Occurrences::NoneOrMore, OS_RIGHT => Occurrences::NoneOrMore, OS_TOKEN => Occurrences::NoneOrMore, OS_DOC => Occurrences::NoneOrMore,
    };
    let notes = tiny_bmap! { GS_NOTE => Occurrences::NoneOrMore };
    let alpha = Schema {
        ffv: none!(),
        flags: none!(),
        name: "LabAlpha".into(),
        timestamp: TS,
        developer: Identity::default(),
        meta_types: tiny_bmap! { MS_MEMO => amount },
        global_types: tiny_bmap! {
            GS_SPEC => GlobalStateSchema::once(spec),
            GS_NOTE => GlobalStateSchema { reserved: none!(), sem_id: amount, max_items: u24::try_from(NOTE_LIMIT).unwrap() },
        },
        owned_types: tiny_bmap! {
            OS_ASSET => OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit),
            OS_BONUS => OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit),
            OS_RIGHT => OwnedStateSchema::Declarative,
            OS_TOKEN => OwnedStateSchema::Structured(alloc),
            OS_DOC => OwnedStateSchema::Attachment(MediaType::Any),
        },
        valency_types: none!(),
        genesis: GenesisSchema {
            metadata: none!(),
            globals: tiny_bmap! { GS_SPEC => Occurrences::Once, GS_NOTE => Occurrences::NoneOrMore },
            assignments: all.clone(),
            valencies: none!(),
            validator: None,
        },
        extensions: none!(),
        transitions: tiny_bmap! {
            TS_TRANSFER => TransitionSchema {
                metadata: none!(),
                globals: notes.clone(),
                inputs: with_asset.clone(),
                assignments: with_asset,
                valencies: none!(),
                validator: Some(LibSite::with(0, alib.id())),
            },
            TS_MOVE => TransitionSchema {
                metadata: none!(),
                globals: notes.clone(),
                inputs: all.clone(),
                assignments: all.clone(),
                valencies: none!(),
                validator: None,
            },
            TS_ANNOTATE => TransitionSchema {
                metadata: tiny_bset! { MS_MEMO },
                globals: notes.clone(),
                inputs: all.clone(),
                assignments: all,
                valencies: none!(),
                validator: None,
            },
        },
        reserved: none!(),
    };

    let ball: TinyOrdMap<AssignmentType, Occurrences> = tiny_bmap! { B_ASSET => Occurrences::NoneOrMore, B_RIGHT => Occurrences::NoneOrMore };
    let bwith: TinyOrdMap<AssignmentType, Occurrences> =
        tiny_bmap! { B_ASSET => Occurrences::OnceOrMore, B_RIGHT => Occurrences::NoneOrMore };
    let beta = Schema {
        ffv: none!(),
        flags: none!(),
        name: "LabBeta".into(),
        timestamp: TS,
        developer: Identity::default(),
        meta_types: none!(),
        global_types: tiny_bmap! { B_SPEC => GlobalStateSchema::once(spec) },
        owned_types: tiny_bmap! {
            B_ASSET => OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit),
            B_RIGHT => OwnedStateSchema::Declarative,
        },
        valency_types: none!(),
        genesis: GenesisSchema {
            metadata: none!(),
            globals: tiny_bmap! { B_SPEC => Occurrences::Once },
            assignments: ball.clone(),
            valencies: none!(),
            validator: None,
        },
        extensions: none!(),
        transitions: tiny_bmap! {
            B_TRANSFER => TransitionSchema {
                metadata: none!(),
                globals: none!(),
                inputs: bwith.clone(),
                assignments: bwith,
                valencies: none!(),
                validator: Some(LibSite::with(0, blib.id())),
            },
            B_MOVE => TransitionSchema {
                metadata: none!(),
                globals: none!(),
                inputs: ball.clone(),
                assignments: ball,
                valencies: none!(),
                validator: None,
            },
        },
        reserved: none!(),
    };

    let iall = tiny_bmap! {
        f("asset") => Occurrences::NoneOrMore, f("bonus") => Occurrences::NoneOrMore, f("right") => Occurrences::NoneOrMore, f("token") => Occurrences::NoneOrMore, f("doc") => Occurrences::NoneOrMore,
    };
    let tr = |default: Option<FieldName>, metadata: TinyOrdSet<FieldName>, optional: bool| TransitionIface {
        modifier: Modifier::Final,
        optional,
        metadata,
        globals: tiny_bmap! { f("note") => Occurrences::NoneOrMore },
        inputs: iall.clone(),
        assignments: iall.clone(),
        valencies: none!(),
        errors: none!(),
        default_assignment: default,
    };
    let iface = Iface {
        version: VerNo::V1,
        name: "LabAsset".into(),
        inherits: none!(),
        timestamp: TS,
        metadata: tiny_bmap! { f("memo") => amount },
        global_state: tiny_bmap! {
            f("spec") => GlobalIface::required(spec),
            f("note") => GlobalIface::none_or_many(amount),
        },
        assignments: tiny_bmap! {
            f("asset") => AssignIface::private(OwnedIface::Amount, Req::NoneOrMore),
            f("bonus") => AssignIface::private(OwnedIface::Amount, Req::NoneOrMore),
            f("right") => AssignIface::public(OwnedIface::Rights, Req::NoneOrMore),
            f("token") => AssignIface::private(OwnedIface::Data(alloc), Req::NoneOrMore),
            f("doc") => AssignIface::private(OwnedIface::AnyAttach, Req::NoneOrMore),
        },
        valencies: none!(),
        genesis: GenesisIface {
            modifier: Modifier::Final,
            metadata: none!(),
            globals: tiny_bmap! { f("spec") => Occurrences::Once, f("note") => Occurrences::NoneOrMore },
            assignments: iall.clone(),
            valencies: none!(),
            errors: none!(),
        },
        transitions: tiny_bmap! {
            f("transfer") => tr(Some(f("asset")), none!(), false),
            f("move") => tr(Some(f("asset")), none!(), false),
            f("annotate") => tr(Some(f("asset")), tiny_bset! { f("memo") }, true),
        },
        extensions: none!(),
        default_operation: Some(f("transfer")),
        errors: none!(),
        developer: Identity::default(),
    };
    let aimpl = IfaceImpl {
        version: VerNo::V1,
        schema_id: alpha.schema_id(),
        iface_id: iface.iface_id(),
        timestamp: TS,
        metadata: tiny_bset! { NamedField::with(MS_MEMO, f("memo")) },
        global_state: tiny_bset! { NamedField::with(GS_SPEC, f("spec")), NamedField::with(GS_NOTE, f("note")) },
        assignments: tiny_bset! {
            NamedField::with(OS_ASSET, f("asset")),
            NamedField::with(OS_BONUS, f("bonus")),
            NamedField::with(OS_RIGHT, f("right")),
            NamedField::with(OS_TOKEN, f("token")),
            NamedField::with(OS_DOC, f("doc")),
        },
        valencies: none!(),
        transitions: tiny_bset! {
            NamedField::with(TS_TRANSFER, f("transfer")),
            NamedField::with(TS_MOVE, f("move")),
            NamedField::with(TS_ANNOTATE, f("annotate")),
        },
        extensions: none!(),
        errors: none!(),
        developer: Identity::default(),
    };
    let bimpl = IfaceImpl {
        version: VerNo::V1,
        schema_id: beta.schema_id(),
        iface_id: iface.iface_id(),
        timestamp: TS,
        metadata: none!(),
        global_state: tiny_bset! { NamedField::with(B_SPEC, f("spec")) },
        assignments: tiny_bset! {
            NamedField::with(B_ASSET, f("asset")),
            NamedField::with(B_RIGHT, f("right")),
        },
        valencies: none!(),
        transitions: tiny_bset! {
            NamedField::with(B_TRANSFER, f("transfer")),
            NamedField::with(B_MOVE, f("move")),
        },
        extensions: none!(),
        errors: none!(),
        developer: Identity::default(),
    };
    Fixture { alpha, beta, iface, aimpl, bimpl, types, alib, acore, blib }
}

pub fn fx() -> &'static Fixture {
    static FX: OnceLock<Fixture> = OnceLock::new();
    FX.get_or_init(build)
}

/// Libraries used by a schema, directly or by other libraries.
pub fn libs_of<'a>(schema: &Schema, known: impl IntoIterator<Item = &'a Lib> + Copy) -> BTreeSet<LibId> {
    let mut all = BTreeSet::new();
    let mut queue: Vec<LibId> = schema.libs().collect();
    while let Some(id) = queue.pop() {
        if all.insert(id) {
            queue.extend(known.into_iter().filter(|l| l.id() == id).flat_map(|l| l.libs.iter().copied()));
        }
    }
    all
}

/// The kit with everything in it.
pub fn full_kit() -> Kit {
    let x = fx();
    Kit {
        version: Default::default(),
        ifaces: tiny_bset! { x.iface.clone() },
        schemata: tiny_bset! { x.alpha.clone(), x.beta.clone() },
        iimpls: tiny_bset! { x.aimpl.clone(), x.bimpl.clone() },
        supplements: none!(),
        types: x.types.clone(),
        scripts: Confined::from_iter_checked([x.alib.clone(), x.acore.clone(), x.blib.clone()]),
        signatures: none!(),
    }
}

/// Something assigned to an output.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Val {
    Asset(u64),
    Bonus(u64),
    Right,
    Token(u32, u64),
    Doc(u8),
}

impl Val {
    pub fn name(&self) -> &'static str {
        match self {
            Val::Asset(_) => "asset",
            Val::Bonus(_) => "bonus",
            Val::Right => "right",
            Val::Token(..) => "token",
            Val::Doc(_) => "doc",
        }
    }
}

pub fn doc_state(n: u8) -> AttachState {
    AttachState {
        id: AttachId::from(amplify::Bytes32::from([n; 32])),
        media_type: MediaType::Any,
    }
}

pub fn blinding(n: u64) -> BlindingFactor {
    let mut buf = [0u8; 32];
    buf[0] = 1;
    buf[24..].copy_from_slice(&(n + 1).to_be_bytes());
    use amplify::hex::ToHex;
    buf.to_hex().parse().expect("valid blinding")
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Sch {
    Alpha,
    Beta,
}

pub fn builder(sch: Sch) -> ContractBuilder {
    let x = fx();
    let (s, i, l) = match sch {
        Sch::Alpha => (&x.alpha, &x.aimpl, vec![&x.alib, &x.acore]),
        Sch::Beta => (&x.beta, &x.bimpl, vec![&x.blib]),
    };
    ContractBuilder::deterministic(
        Identity::default(),
        x.iface.clone(),
        s.clone(),
        i.clone(),
        x.types.clone(),
        Confined::from_iter_checked(l.into_iter().map(|l| (l.id(), l.clone()))),
    )
}

/// Issues a contract with the given allocations; `salt` makes contracts
/// distinct.
pub fn issue(
    sch: Sch,
    salt: u64,
    notes: &[u64],
    alloc: &[(XChain<GenesisSeal>, Val)],
) -> R<ValidContract> {
    let mut b = builder(sch);
    let tag = |no: u16| {
        let mut b = [0x0Au8; 32];
        b[0] = no as u8;
        b[1..9].copy_from_slice(&salt.to_le_bytes());
        AssetTag::from(b)
    };
    b = b.add_asset_tag("asset", tag(1)).sut("tag")?;
    if sch == Sch::Alpha {
        b = b.add_asset_tag("bonus", tag(2)).sut("tag")?;
    }
    b = b.add_global_state("spec", asset_spec(salt)).sut("spec")?;
    for n in notes {
        b = b.add_global_state("note", Amount::from(*n)).sut("note")?;
    }
    for (i, (seal, val)) in alloc.iter().enumerate() {
        let seal = BuilderSeal::Revealed(*seal);
        b = match val {
            Val::Asset(v) => b.add_fungible_state_det("asset", seal, *v, blinding(100 + i as u64)),
            Val::Bonus(v) => b.add_fungible_state_det("bonus", seal, *v, blinding(200 + i as u64)),
            Val::Right => b.add_rights("right", seal),
            Val::Token(i, fr) => b.add_data_det(
                "token",
                seal,
                RevealedData::with_salt(Allocation::with(*i, *fr), 7 + *i as u128),
            ),
            Val::Doc(n) => {
                let d = doc_state(*n);
                b.add_attachment_det("doc", seal, RevealedAttach::with_salt(d.id, d.media_type, 9))
            }
        }
        .sut("add state")?;
    }
    b.issue_contract_det(TS + salt as i64).sut("issue")
}

pub use rgbstd::containers::BuilderSeal;
#[allow(unused)]
pub type AnyContract = Contract;

pub fn asset_spec(salt: u64) -> AssetSpec {
    AssetSpec::new(["AAA", "BBB", "CCC"][salt as usize % 3], "Lab asset", Precision::CentiMicro)
}
