import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/persistence/"
prop("P01","A transfer carries everything its recipient needs, and nothing invalid",
 "Whatever history of payments produced a holding, the consignment exported for it (by blinded seal, by outpoint, or both) is complete: it validates for a party who knows nothing but the chain. Once accepted, that party sees exactly the state assigned to the exported seals, with unchanged amounts, data and rights, and can spend it further.",
 ["histories","inputs"],"every history of payments up to a bound of steps over several wallets, outputs, seal kinds (blinded, witness-vout, change), closing methods and amounts; every export selector",
 "The existing tests never build a contract: the only stock test imports dumb containers and never exports or validates a transfer. The property ranges over payment DAGs (merges, splits, re-use of shared ancestors).",
 [S+"stock.rs",S+"index.rs",S+"memory.rs",S+"stash.rs","src/containers/consignment.rs","src/containers/indexed.rs"],
 [("consignment assembly from terminals back to genesis","Stock::consign / Stock::transfer in src/persistence/stock.rs"),("operation to bundle and bundle to witness lookup","MemIndex in src/persistence/memory.rs"),("indexed access used by validation","src/containers/indexed.rs")],
 ["Stock::transfer","Consignment::validate","Stock::accept_transfer","Stock::contract_assignments_for"])
prop("P02","Contract state reported by a stock equals the ledger of operations it knows",
 "After any sequence of issues, payments, imports and acceptances, the owned state a stock reports for a contract (per output, per type, with amounts, data, attachments and rights) is exactly the set of outputs of the operations it was given whose seal it knows and whose witness is valid. No assignment is lost, duplicated, altered or attributed to another output or contract.",
 ["histories"],"all operation sequences up to a bounded length over a small alphabet of issues, payments and acceptances on several stocks",
 "Existing tests check no contract state at all; the property quantifies over histories, including re-delivery and interleaving of several contracts.",
 [S+"state.rs",S+"memory.rs",S+"stock.rs","src/contract/assignments.rs"],
 [("operation to state projection","MemContractState / add_operation in src/persistence/memory.rs"),("visibility filter","OutputAssignment::check_witness in src/contract/assignments.rs")],
 ["Stock::contract_state","Stock::contract_assignments_for","ContractStateRead"])
prop("P03","Knowledge merges: order, repetition and splitting of deliveries do not matter",
 "Delivering the same set of kits, contracts and transfers to a stock in any order, any number of times, leads to the same contract state, the same indexes and the same later exports. Delivering more data never makes previously known state or operations disappear.",
 ["histories","schedules"],"all permutations, with repetitions, of a set of overlapping consignments and seal disclosures cut from one history",
 "Tests import each container once into an empty stock; confluence is a statement over all delivery orders.",
 [S+"stash.rs",S+"stock.rs",S+"memory.rs","src/contract/merge_reveal.rs","src/containers/anchors.rs"],
 [("merge of disclosed operation data","MergeReveal implementations in src/contract/merge_reveal.rs"),("idempotent registration","MemIndex::register_*, MemState::register_contract, MemStash::replace_* in src/persistence/memory.rs")],
 ["Stock::import_contract","Stock::accept_transfer","Stock::contract_state","Stock::transfer"])
prop("P04","A composed payment pays exactly the invoice and loses nothing",
 "When the stock composes a payment for an invoice from a set of spent outputs, the beneficiary receives exactly the invoiced state, and every other piece of state held by those outputs - change of the same asset, other state types, other contracts - is re-assigned to the payer's own outputs with unchanged totals. If the inputs do not suffice or the payment is otherwise impossible an error is returned and no operation is produced.",
 ["inputs","histories"],"all small portfolios (contracts x state types x outputs x amounts x closing methods), all subsets of spent outputs, all invoice amounts around the boundary values, both beneficiary kinds",
 "Compose is not covered by any test; the loss of unrelated state depends on the combination of types, contracts and outputs being spent.",
 [S+"stock.rs","src/interface/builder.rs","src/containers/partials.rs"],
 [("payment composition","Stock::compose_deterministic in src/persistence/stock.rs"),("balanced blinding and completion","OperationBuilder::complete in src/interface/builder.rs")],
 ["Stock::compose","Stock::compose_deterministic","Batch"])
prop("P05","State visibility follows the present status of its witness transaction",
 "State created by an operation is visible exactly while the transaction witnessing it (any one of them, if the operation was committed by several) is mined or tentative, and invisible while all are archived. After any sequence of status updates - reorganisations, replacement, re-mining, failed status queries - visibility depends only on the last status obtained for each witness, so state that became invalid comes back unchanged. An update reports exactly the witnesses it could not query and counts only those it did.",
 ["histories","fault_sequences"],"all sequences of status updates up to a bound over several dependent witnesses, with each status (archived, mined at different heights, tentative, resolver failure) and each safe-height cut-off",
 "No test calls the witness update; the property is over sequences of statuses.",
 [S+"memory.rs",S+"state.rs","src/contract/assignments.rs",S+"stock.rs"],
 [("witness status refresh","update_witnesses in src/persistence/memory.rs"),("filtering by witness","MemContract iterators in src/persistence/memory.rs, OutputAssignment::check_witness")],
 ["Stock::update_witnesses","Stock::contract_state","Stock::contract_assignments_for"])
prop("P06","What was saved is what is loaded",
 "After any history, a stock saved to disk and loaded back answers every query, export and further operation in the same way as the stock in memory. With autosave on, this holds after every successful operation without an explicit save.",
 ["histories","configurations"],"all operation histories up to a bound, autosave on and off, save after each step",
 "No test persists a stock with content; equality of the reloaded stock must hold for all contents.",
 [S+"fs.rs",S+"memory.rs",S+"stock.rs"],
 [("binary store","FsBinStore in src/persistence/fs.rs"),("transactions mark dirty and store","StoreTransaction for Mem* in src/persistence/memory.rs"),("store and load of the three parts","Stock::load / Stock::store in src/persistence/stock.rs")],
 ["Stock::load","Stock::store","Stock::make_persistent"])
prop("P07","A crash or I/O failure while saving never loses previously saved data",
 "If the process dies, or the file system fails, at any point while a stock is being saved, the directory can still be loaded, everything that was saved before is still there, and repeating the interrupted operation completes it. A failure to save is reported as an error and does not make the stock unusable.",
 ["crash_points","fault_sequences"],"every write call of every save in a history, cut at every prefix of the write, as crash and as returned error",
 "Tests have no notion of a crash; the failure points number in the thousands.",
 [S+"fs.rs",S+"stock.rs",S+"memory.rs"],
 [("binary store","FsBinStore in src/persistence/fs.rs"),("store ordering","Stock::store in src/persistence/stock.rs"),("error path of commits","StoreTransaction for Mem* in src/persistence/memory.rs")],
 ["Stock::store","Stock::load"])
prop("P08","A refused operation changes nothing",
 "When importing, accepting, consuming or composing fails - because the chain backend cannot answer, the data conflict with what is known, or the storage refuses - the call returns an error without panicking and every query gives the same answers as before the call. Repeating the operation once the cause is gone gives the same result as if it had never failed.",
 ["fault_sequences","inputs"],"each mutating operation with a failure injected at each resolver call and each provider call, and with each kind of conflicting input",
 "Tests only drive the success path with a resolver that always succeeds.",
 [S+"stock.rs",S+"memory.rs",S+"stash.rs",S+"state.rs",S+"index.rs"],
 [("store transactions","Stock::store_transaction in src/persistence/stock.rs, StoreTransaction in src/persistence/mod.rs"),("input checks","Stock::consume_fascia, MemIndex::register_* ")],
 ["Stock::import_contract","Stock::accept_transfer","Stock::consume_fascia","Stock::import_kit"])
prop("P09","Merging two views of the same operation reveals the union of both",
 "Combining two differently concealed copies of the same operation, bundle or witness gives the copy in which everything disclosed by either is disclosed and nothing else changes; identifiers stay the same. The combination is commutative, associative and idempotent, and combining different objects is refused.",
 ["inputs"],"all concealment patterns of operations with up to two assignments of every state type, all subsets of known transitions in a bundle, all witness forms, in pairs and triples",
 "No test merges operations; laws over pairs and triples of patterns are universally quantified.",
 ["src/contract/merge_reveal.rs","src/containers/anchors.rs"],
 [("merge rules","impl MergeReveal for Assign/TypedAssigns/Assignments/TransitionBundle/Genesis/Transition/Extension"),("witness merge","PubWitness::merge_reveal, AnchorSet merge in src/containers/anchors.rs")],
 ["MergeReveal::merge_reveal"])
prop("P10","Containers survive every form of storage and damage is never silent",
 "A kit, contract or transfer written as a binary file, as an armored file or as text reads back as an equal container with the same identifier. Any truncation, alteration of the text body or of its headers, or use as a container of another kind, is reported as an error instead of yielding a different container.",
 ["inputs","fault_sequences"],"all containers of a family built from real histories, all truncation points, all single-byte/character alterations, all kind confusions",
 "Tests compare six fixed asset files; damage and non-trivial contents are not exercised.",
 ["src/containers/file.rs","src/containers/consignment.rs","src/containers/kit.rs","src/containers/suppl.rs"],
 [("container file format","FileContent and UniversalFile in src/containers/file.rs"),("armoring","AsciiArmor/StrictArmor impl in src/containers/consignment.rs and kit.rs")],
 ["FileContent::{save,load,save_armored,load_armored}","UniversalFile","FromStr/Display of containers"])
prop("P11","Container and object identifiers commit to content",
 "Two consistent containers have the same identifier only if they disclose the same content: changing any part the recipient relies on - genesis, operations, witnesses, terminals, schemata, interfaces, the set of types, scripts, supplements, attachments, signatures, kind - changes the identifier. Where a part is bound only through the identifier another part states for it, replacing it is reported by validation. The identifier is the same on every computation and after storage.",
 ["inputs"],"all single-byte changes to every part of consignments and kits of the fixture family, all removals of single elements, all pairs of containers",
 "Tests pin a few identifiers of dumb objects only.",
 ["src/containers/consignment.rs","src/containers/kit.rs","src/containers/suppl.rs","src/interface/iface.rs","src/interface/iimpl.rs"],
 [("commitment encoding","CommitEncode impls of Consignment, Kit, Supplement, Iface, IfaceImpl")],
 ["Consignment::consignment_id","Kit::kit_id","Supplement::suppl_id","Iface::iface_id","IfaceImpl::impl_id"])
prop("P12","An altered or incomplete consignment is never accepted",
 "Starting from a valid consignment, every alteration that forges, inflates, reassigns, drops, duplicates or detaches an operation, witness, anchor, input or required schema part makes validation fail, for every choice of what the chain reports. Only what the holders signed and the chain confirms ever reaches the state of a stock.",
 ["inputs","configurations"],"all single alterations (and selected pairs) of every element of consignments from bounded histories, against all resolver answers for the witnesses involved",
 "No test validates a consignment.",
 ["src/containers/consignment.rs","src/containers/indexed.rs","src/containers/anchors.rs","src/interface/resolver.rs"],
 [("validation entry","Consignment::validate in src/containers/consignment.rs"),("operation/bundle/witness lookup given to the validator","IndexedConsignment in src/containers/indexed.rs"),("consignment-supplied transactions","ConsignmentResolver in src/interface/resolver.rs")],
 ["Consignment::validate"])
prop("P13","An invoice read from its own text is the same invoice",
 "For every invoice that can be built, formatting it and parsing the result gives back an equal invoice: contract, interface, state, beneficiary with network, expiry, transports and unknown parameters. Text that is accepted by the parser is stable under another format/parse round, and no text makes the parser panic.",
 ["inputs"],"all combinations of field choices from boundary alphabets, all single-character edits of their texts, all short strings",
 "Tests cover about thirty hand-written strings.",
 ["invoice/src/parse.rs","invoice/src/invoice.rs","invoice/src/builder.rs","invoice/src/data.rs"],
 [("text format","Display and FromStr for RgbInvoice, RgbTransport, XChainNet<Beneficiary>, ChainNet in invoice/src/parse.rs"),("state text","InvoiceState in invoice/src/invoice.rs")],
 ["RgbInvoice: Display/FromStr","RgbInvoiceBuilder"])
prop("P14","Amounts convert and compute exactly or fail",
 "Every conversion between raw amounts, decimal coin amounts and their texts is exact in both directions for every value and precision; sums and differences equal the mathematical result or are reported as overflow by the checked form. No representable value makes formatting, parsing or invoice building panic or silently change the value.",
 ["inputs"],"all precisions x boundary and small values x all decimal strings up to a bounded length; all pairs for arithmetic",
 "Tests cover a handful of values with one or two precisions.",
 ["invoice/src/amount.rs","invoice/src/builder.rs","invoice/src/data.rs"],
 [("decimal split and join","Amount/CoinAmount in invoice/src/amount.rs"),("text","Display/FromStr for Amount, CoinAmount, Allocation, NonFungible"),("invoice amount setters","RgbInvoiceBuilder::set_amount*")],
 ["Amount","CoinAmount","Precision","Allocation","RgbInvoiceBuilder"])
prop("P15","A completed operation contains everything put into its builder",
 "Every metadata, global state, input, right, amount, data or attachment accepted by a contract or transition builder is present, once and unaltered, in the operation it produces, and the produced contract validates whenever the schema permits what was added. Items the schema or the interface does not permit are refused when added, and fungible inputs and outputs always balance cryptographically.",
 ["programs","inputs"],"all builder call sequences up to a bounded length over an alphabet of valid and invalid calls with shared and distinct seals",
 "No test runs a builder; silent loss depends on call combinations (same seal twice, both fungible types, metadata).",
 ["src/interface/builder.rs"],
 [("call validation and accumulation","OperationBuilder/ContractBuilder/TransitionBuilder in src/interface/builder.rs"),("balanced blinding","OperationBuilder::complete")],
 ["ContractBuilder::issue_contract_det","TransitionBuilder::complete_transition"])
prop("P16","An interface implementation is accepted exactly when it binds correctly",
 "The conformance check of an implementation against an interface and a schema reports every missing, repeated or dangling binding and reports nothing for a complete one, where operations the interface calls optional may be missing. Deriving an implementation for an ancestor interface keeps exactly the bindings of what the ancestor declares and yields a conforming implementation; it is refused for interfaces which are not ancestors.",
 ["inputs","configurations"],"all implementations obtained by removing, duplicating, renaming or retargeting bindings of a correct one, in singles and pairs; all ancestors declaring subsets of the items of an interface",
 "Only positive construction of dumb implementations is exercised by tests.",
 ["src/interface/iimpl.rs","src/interface/inheritance.rs","src/interface/iface.rs"],
 [("binding check","IfaceImpl::check in src/interface/iimpl.rs"),("derivation","IfaceImpl::abstracted in src/interface/inheritance.rs")],
 ["IfaceImpl::check","IfaceImpl::abstracted"])
prop("P17","Extending an interface never weakens what the parent required",
 "An interface produced by extending a parent contains every item of the parent and of the extension, names all its ancestors and is internally consistent if both were; an extension that conflicts with the parent (final items, changed types, loosened requirements or visibility, changed defaults, name clashes) is refused and any other is accepted. The consistency test of interfaces reports exactly the contradictions there are. A schema is accepted as derived from a root schema only if all it declares is declared alike by the root.",
 ["inputs","configurations"],"all pairs parent x extension over a grid of items, modifiers, requirement, visibility and multiplicity flags and types, also in combinations and chains; all single and paired alterations of a consistent interface and of a derived schema",
 "No test extends an interface; the rule matrix has hundreds of cells.",
 ["src/interface/inheritance.rs","src/interface/iface.rs"],
 [("extension","Iface::extended/inherit, GlobalIface/OwnedIface/GenesisIface/TransitionIface/ExtensionIface::extended"),("consistency","Iface::check"),("schema derivation","CheckInheritance for Schema")],
 ["Iface::extended","Iface::inherit","Iface::check"])
prop("P18","Lookups by output find every and only the state at that output",
 "For every set of outputs, the contracts reported as assigning to them and the per-contract assignments reported for them are exactly those that a scan of the whole contract state finds, without duplicates and regardless of the closing method of the seals involved.",
 ["histories","inputs"],"all subsets of the outputs (plus unknown ones) of all portfolios reachable in bounded histories",
 "Tests have no populated index.",
 [S+"index.rs",S+"memory.rs",S+"stock.rs"],
 [("reverse index","MemIndex::outpoint_opouts, opouts_by_outputs, contracts_assigning"),("assignment extraction","Stock::contract_assignments_for")],
 ["Stock::contracts_assigning","Stock::contract_assignments_for","Stock::transfer"])
prop("P19","Blinded seals become spendable exactly for their owner",
 "State received on a blinded seal becomes visible to a stock that has the seal stored, whichever of storing and paying came first, and stays hidden from a stock that does not have it, while receiving the payment again after storing the seal discloses it. The payer's consignment never discloses the output behind the seal, and the new owner can pass the state on.",
 ["histories","schedules"],"all orders of storing, creating, receiving and re-receiving over several seals and wallets",
 "No test stores a seal and accepts a transfer.",
 [S+"stash.rs",S+"stock.rs","src/containers/consignment.rs","src/contract/assignments.rs","src/containers/anchors.rs"],
 [("disclosure","Stash::resolve_secrets, Consignment::reveal_terminal_seals, WitnessBundle::reveal_seal, TypedAssignsExt::reveal_seal")],
 ["Stock::store_secret_seal","Stock::accept_transfer","Stock::transfer"])
prop("P20","Interface queries and wallet history agree with the contract state",
 "Every typed query of a contract through an interface (rights, amounts, data, attachments, global values, balances, per-output allocations and outpoint filters) returns exactly the matching part of the contract state, under every filter. The history of a wallet nets to its balance as far as the outputs are disclosed to the stock: for each operation what is reported in and out matches what that operation moved across the filter.",
 ["histories","inputs"],"all filters over the outputs of bounded histories, all state types and names",
 "Tests never query a contract.",
 ["src/interface/contract.rs","src/interface/filter.rs","src/interface/contractum.rs"],
 [("typed access","ContractIface in src/interface/contract.rs"),("filters","OutpointFilter implementations in src/interface/filter.rs")],
 ["ContractIface","IfaceOp / history API","Filter implementations"])
prop("P21","Global state is reported in consensus order, bounded, and only if valid",
 "The global state of a contract is reported in the consensus order of the operations that published it, each value once; when the schema permits fewer values than were published, the most recent ones are reported. Values published by operations whose witness is archived are excluded, and the reported size agrees with the list.",
 ["histories"],"all histories of publications with equal and different heights, nonces, archived witnesses, and counts below, at and above the permitted number",
 "Tests never read global state.",
 [S+"memory.rs","src/interface/contract.rs","src/contract/mod.rs"],
 [("ordered access","MemContract::global and its iterator in src/persistence/memory.rs"),("storage limit","MemContractState::add_operation / MemGlobalState")],
 ["ContractStateAccess::global","ContractIface::global"])
prop("P22","Exported schemata and contracts reproduce their source",
 "Exporting a schema or a contract and importing the result into an empty stock yields a stock that knows the same schema, interfaces, implementations, types, scripts and genesis; exporting again yields the same container, and so does passing the history of any outputs through an empty stock. A contract exported after any history validates.",
 ["histories","configurations"],"all fixture schemata, interface sets, contract variants and bounded histories",
 "The stock tests export only from stocks without contracts.",
 [S+"stock.rs",S+"stash.rs","src/containers/kit.rs","src/containers/consignment.rs"],
 [("export","Stock::export_schema, Stock::export_contract"),("type/script extraction","Stash::extract")],
 ["Stock::export_schema","Stock::export_contract","Stock::import_kit","Stock::import_contract"])
prop("P23","One transaction may witness any mix of contracts and closing methods",
 "Operations of several contracts and of both closing methods committed by one transaction are each retained with their own proof, whichever of them arrives first and from whichever party. Each can afterwards be exported with a proof that validates, and no proof of another contract is lost or exposed.",
 ["histories","schedules"],"all arrival orders of the parts of transactions witnessing one to three contracts with opret, tapret or both",
 "No test merges anchors.",
 ["src/containers/anchors.rs",S+"stash.rs",S+"memory.rs",S+"stock.rs"],
 [("anchor merge","AnchorSet/SealWitness merge, MemStash::replace_witness"),("proof extraction","Stash::client-bundle assembly and Stock::consign")],
 ["Stock::consume_fascia","Stock::accept_transfer","Stock::transfer"])
prop("P24","Payer and payee agree on the outcome of a payment",
 "A stock that takes a payment from its own signed result and a stock that takes it from the exported consignment report the same operations, witnesses and state for every output both can see. The identifiers stated with a composed batch always match its transitions, including after its priority is changed.",
 ["histories","inputs"],"all bounded payment histories, all priorities and closing methods, both ways of ingestion on each stock",
 "No test drives either ingestion path.",
 [S+"stock.rs",S+"state.rs",S+"index.rs","src/containers/partials.rs"],
 [("two ingestion paths","Stock::consume_fascia vs Stock::accept_transfer"),("batch identifiers","Batch/TransitionInfo in src/containers/partials.rs")],
 ["Stock::consume_fascia","Stock::accept_transfer","Batch::set_priority"])
prop("P25","Annotations, supplements and signatures are kept and never mixed up",
 "Annotations of a supplement are returned under exactly the part, item and key they were added for, a later one replaces an earlier one, and one which does not fit is refused without disturbing others. A stock keeps imported supplements and signatures under the content they speak about, whatever the order of import, takes none from signers known as malicious, loses none it holds, and hands them on with exported contracts. The hints and classes the library reads from annotations are those of the annotated contract, interface and state type.",
 ["inputs","schedules"],"all annotation sequences over parts, items, keys and sizes up to a depth, from empty and full supplements; all sequences of imports of supplements and signatures (by kit and by contract) and of trust changes up to a depth; all placements of the annotations the library reads",
 "No test covers supplements or signatures beyond dumb values.",
 ["src/containers/suppl.rs","src/info.rs",S+"memory.rs",S+"stash.rs",S+"stock.rs"],
 [("annotations","Supplement::{get,annotate} in src/containers/suppl.rs"),("storage","MemStash::{add_supplement,import_sigs,supplements} in src/persistence/memory.rs"),("export","Stock::consign in src/persistence/stock.rs"),("use","IfaceInfo::new in src/info.rs, velocity hint in Stock::compose_deterministic")],
 ["Supplement","Stock::import_kit","Stock::import_contract","Stock::export_contract","Stock::ifaces","Stock::compose"])
prop("P26","Standard field types accept exactly their documented values and round-trip",
 "Each standard-library value type (ticker, name, details, precision, contract specification, media type, timestamps and similar) is constructible exactly for the documented character set and length, and its text, binary and typed-value forms convert back to an equal value. Equality, ordering and hashing of each type agree with each other.",
 ["inputs"],"all strings up to a bounded length over an alphabet of boundary characters, all lengths around the limits, all pairs for the ordering laws",
 "Tests check a few fixed values.",
 ["src/stl/specs.rs","src/stl/chain.rs","src/stl/mime.rs","src/stl/stl.rs","src/stl/error.rs"],
 [("constrained strings","Ticker, AssetName, Details, Article, … in src/stl/specs.rs"),("typed values","StrictVal conversions in src/stl")],
 ["src/stl public types"])
prop("P27","Beneficiaries name one network and one output form",
 "The network, chain layer, address kind and closing method encoded in a beneficiary are recovered exactly from its text and byte forms, and an address or seal of another network or an invalid kind is refused. Every network is distinguishable from every other in text.",
 ["inputs"],"all networks x all address kinds x closing methods x boundary payloads; all 34-byte prefixes; all network strings up to a bounded length",
 "Tests check six networks partially and no byte payloads.",
 ["invoice/src/invoice.rs","invoice/src/parse.rs"],
 [("network tags","ChainNet/XChainNet"),("payload encoding","Pay2Vout in invoice/src/invoice.rs and parse.rs")],
 ["ChainNet","XChainNet","Beneficiary","Pay2Vout"])
prop("P28","Importing kits accumulates knowledge consistently",
 "Schemata, interfaces, implementations, types and scripts imported in any order and combination are afterwards found by name and by identifier, implementations are found under exactly the schema and interface they bind, and re-import changes nothing. A kit implementing an unknown schema or interface is refused and does not disturb what was there, and building operations or exporting is possible exactly when everything required is known. Exports pair each implementation with the interface it binds.",
 ["histories","inputs"],"all sequences, up to a depth, of imports of single parts, combinations and all subsets of parts (complete and incomplete, repeated) and of a contract, from empty, partial and complete stocks",
 "Tests import one dumb kit.",
 [S+"stash.rs",S+"memory.rs",S+"stock.rs","src/containers/kit.rs","src/info.rs"],
 [("kit ingestion","Stash::consume_kit, MemStash::replace_*"),("kit validation","Kit::validate"),("lookup","Stock::{iface,schema,schemata,ifaces}")],
 ["Stock::import_kit","Stock::iface","Stock::schema","Stock::contract_iface"])
prop("P29","A replaced witness transaction does not lose or duplicate state",
 "If the same operations are committed by a second transaction replacing the first, the state is visible once while either is valid, sits at the output of the valid one, and can be exported and validated through the valid one. Which transaction came first or in which order their statuses change does not matter.",
 ["histories","schedules"],"all orders of two or three alternative witnesses for each payment of a bounded history and all their status sequences",
 "No test re-anchors a bundle.",
 ["src/contract/assignments.rs",S+"memory.rs",S+"state.rs",S+"stock.rs"],
 [("assignment identity","OutputAssignment Eq/Ord"),("witness selection","State::select_valid_witness, Stock::client_bundle")],
 ["Stock::consume_fascia","Stock::update_witnesses","Stock::contract_state","Stock::transfer"])
json.dump
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
import re
for p in P:
    n=len(re.findall(r'[.!?](?=\s|$)',p["statement"]))
    if n>3: print(p["id"],n)
