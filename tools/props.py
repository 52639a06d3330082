BOUND = 'Every path of the code within the stated sizes is explored and each assertion is settled by z3 for all values on that path; sizes beyond the bounds, and the models of KLayout/protobuf primitives (cross-checked by replaying solver-chosen inputs on the real libraries), are trusted. Floats are treated as exact reals.'
NOTES = 'See DESIGN.md. One engine (symx/), one harness per property (harness/). check.py exits 2 when nothing could be decided.'
NOT_APPLICABLE = [
    dict(property='C36', reason='The rule decks are Ruby scripts executed by the KLayout program (not installed) and their meaning is that of KLayout\'s DRC/LVS engine; '
                                'neither a symbolic executor for that language nor the engine\'s source is within reach.'),
    dict(property='C37', reason='The generator is a program without inputs that writes constants: there is no variable to quantify over, checking it is a comparison of data '
                                'with the PDK documentation, not a solver question. What the code does with any such data is decided in C05, C06, C07.'),
]
PROPS = []


def P(id, title, statement, quant, why, files, mech, **k):
    k.setdefault('note', BOUND)
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, **k))


P('C01', 'Overlap capacitance is coefficient times exposed overlap area',
  'For every two conducting shapes of different nets on different layers, the extracted overlap capacitance equals the layer '
  'pair\'s area coefficient times the area in which they overlap and no conductor of another net lies in between, counted once and '
  'attributed to exactly those two nets and layers. Layer pairs without a coefficient contribute nothing and influence no other '
  'pair; a net never gets a capacitance to itself.',
  'all rectangle positions and sizes, net assignments, layer combinations, coefficients and database units',
  'The tests compare a few fixed layouts with stored results; the guarantee is about every geometry and every order of edges.',
  ['klayout_pex/rcx25/c/overlap_extractor.py'],
  [('upward neighbourhood visit with growing shield region', 'klayout_pex/rcx25/c/overlap_extractor.py: OverlapExtractor.extract, neighbors')])

P('C08', 'The extraction summary neither loses nor invents parasitics',
  'The summary over all cells contains one entry per unordered net pair, and it is the sum of every partial capacitance '
  '(overlap, sidewall, side overlap) extracted between these two nets, whatever the order of the nets, layers, cells or insertion. '
  'Resistances are summarised per unordered pair of network nodes; several resistors between the same two nodes (also from different cells or in the opposite direction) count as connected in parallel. Neither kind leaks into the other.',
  'all sets of extracted partial capacitances/resistances, all net names and values',
  'Tests use two fixed names and a handful of entries.',
  ['klayout_pex/rcx25/extraction_results.py'],
  [('normalised net couple keys and accumulation', 'klayout_pex/rcx25/extraction_results.py: CellExtractionResults.summarize, ExtractionSummary.merged')])

P('C02', 'Sidewall capacitance couples only facing neighbours within the halo',
  'Two conducting shapes on one layer that face each other within the halo get sidewall capacitance = facing length × layer '
  'coefficient / (distance + layer offset); nothing else of another net may lie between them, a nearer shape hides a farther one, '
  'a pair is counted once (not once per direction), a net never couples with itself, and shapes beyond the halo get nothing.',
  'all rectangle positions, sizes, net assignments, coefficients, offsets, halos and database units',
  'Tests use fixed layouts; the split of an edge into visible intervals depends on every relative position.',
  ['klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', 'klayout_pex/rcx25/c/polygon_utils.py'],
  [('edge neighbourhood visit', 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py: FringeEdgeNeighborhoodVisitor.on_edge, emit_sidewall')])

P('C04', 'Fringe capacitance reaches exactly what it sees',
  'The fringe (side overlap) capacitance from a shape\'s edge to a shape on another layer is computed from the distance interval '
  'that is really visible from this edge: neighbours on the same layer shield laterally, conductors on layers in between (of any '
  'net) shield vertically, nothing beyond the halo contributes, and the sum over the visible pieces equals the closed formula, '
  'with or without halo scaling. The substrate is a conductor like any other.',
  'all rectangle positions, sizes, net assignments, halo-relative distances, coefficients; both fringe models',
  'Shielding depends on the order and overlap of every shape around an edge; tests use a few layouts with stored numbers.',
  ['klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', 'klayout_pex/rcx25/c/geometry_restorer.py'],
  [('shield accumulation', 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py: on_edge, emit_fringe')])

P('C05', 'Technology queries answer what the process stack declares',
  'Layer kinds, dielectric filter, conformal/sidewall/simple dielectric neighbours, dielectric permittivities, contacts and GDS '
  'layer look-ups of TechInfo return exactly what the technology file declares, in stack order; computed layers take precedence over '
  'drawn layers with the same name, an ambiguous declaration is rejected.',
  'all process stacks (layer kinds, orders, references, heights, permittivities), all dielectric filters, all GDS numbers',
  'Tests load the two shipped technologies only.',
  ['klayout_pex/tech_info.py'],
  [('cached queries', 'klayout_pex/tech_info.py: TechInfo.*')])

P('C06', 'Capacitance coefficients are found for the right layers, substrate included',
  'Every coefficient of the technology file (substrate, overlap, sidewall, side overlap) is found under exactly its layer pair with '
  'its value, substrate coefficients appear as coefficients towards the internal substrate layer, and no layer pair gets a '
  'coefficient that was not declared.',
  'all technology files (any subset of coefficients for any layers, any values)',
  'The shipped technologies are complete; partial tables never occur in the tests.',
  ['klayout_pex/tech_info.py'],
  [('coefficient dictionaries', 'klayout_pex/tech_info.py: substrate_cap_by_layer_name, overlap_cap_by_layer_names, side_overlap_cap_by_layer_names')])

P('C07', 'The resistance technology mirrors the process stack',
  'The technology handed to the resistance extraction has exactly one conductor per resistive layer (with its sheet resistance) and '
  'one via per contact whose lower and upper layers are conductors (with its resistance per area), under the layer numbers of the '
  'LVS database, connected to the layers the process stack declares; nothing half-filled is left behind, and the transfer into '
  'KLayout\'s own technology object keeps every value (milliohm/µm conversions included).',
  'all process stacks (kinds, orders, contacts, GDS pairs), all resistances, every subset of layers that are present',
  'Tests use shipped technologies where every layer has its resistances and neighbours.',
  ['klayout_pex/rcx25/r/r_extractor.py', 'klayout_pex/tech_info.py', 'klayout_pex/klayout/rex_core.py'],
  [('conductors and vias', 'klayout_pex/rcx25/r/r_extractor.py: prepare_r_extractor_tech_pb'),
   ('transfer to KLayout', 'klayout_pex/klayout/rex_core.py: klayout_r_extractor_tech')])

P('C09', 'Network reduction preserves resistance between the remaining nodes',
  'Eliminating a node from a resistor network (star-mesh), joining parallel edges and connecting nodes leave the conductance matrix '
  'seen from the remaining nodes unchanged; after any sequence of operations every edge is registered at both its nodes and nothing '
  'refers to a removed node.',
  'all networks up to the bounds, all positive conductances, all operation sequences',
  'Electrical equivalence is about every value and topology; there is no test of this module at all.',
  ['klayout_pex/rcx25/r/resistor_network.py', 'klayout_pex/rcx25/r/conductance.py'],
  [('star-mesh transformation', 'klayout_pex/rcx25/r/resistor_network.py: ResistorNetwork.eliminate_node'),
   ('parallel/series conductances', 'klayout_pex/rcx25/r/conductance.py: Conductance')], over=['inputs', 'histories'])

P('C10', 'Obtuse triangles are recognised and split without changing the area',
  'A triangle is classified as skinny exactly when it has an obtuse angle, the index reported identifies the side opposite to it, '
  'whatever the order of the corners; splitting it covers exactly the same area with two right triangles, and every other triangle is '
  'kept as it is.',
  'all triangles, all corner orders',
  'No test exists; the criterion depends on every relative position of three points.',
  ['klayout_pex/rcx25/r/resistor_network.py'],
  [('angle test', 'klayout_pex/rcx25/r/resistor_network.py: ResistorNetwork.is_skinny_tri, expand_skinny_tris')])

P('C11', 'Every pin and device terminal of a net becomes a port of its resistor network',
  'The resistance request contains, per net, the shapes on every layer plus each pin label and each device terminal exactly once on '
  'the right layer with its coordinates in database units; the reported network gives each node the net of its pin or device '
  'terminal and each internal node a net of its own, distinct across all networks, and each resistor its end points and value.',
  'all nets, pins, devices, terminals, node kinds, coordinates, ids, resistances and database units',
  'Stable tests do not run resistance extraction at all.',
  ['klayout_pex/rcx25/r/r_extractor.py'],
  [('request', 'klayout_pex/rcx25/r/r_extractor.py: RExtractor.prepare_request'),
   ('result', 'klayout_pex/rcx25/r/r_extractor.py: RExtractor.extract')])

P('C12', 'Shapes survive the conversion to messages',
  'Points, boxes, polygons (with or without holes), regions and their net annotation are converted to messages and back without '
  'losing or moving anything, in every database unit.',
  'all coordinates, net names and shape kinds',
  'The tests convert two shapes.',
  ['klayout_pex/klayout/shapes_pb2_converter.py'],
  [('conversion', 'klayout_pex/klayout/shapes_pb2_converter.py: ShapesConverter')])

P('C19', 'The field solver result becomes the right capacitors between the right nets',
  'Expanding a netlist with a Maxwell capacitance matrix yields, between every two conductors, exactly the (positive) mutual '
  'capacitance -m[i][j], plus for conductor 0 the remaining capacitance to ground (row sum); nets are found by their expanded names, '
  'nothing is connected to any other net or to itself, no net is duplicated, VSUBS and FC_GND are shorted to GND, devices are kept '
  'exactly when blackboxed, and the given netlist and other circuits are left alone. An unknown conductor is an error.',
  'all symmetric matrices, net names (also unnamed nets and nets called VSUBS/GND/FC_GND), conductor orders and device kinds',
  'One test expands one netlist and asserts nothing about the result.',
  ['klayout_pex/klayout/netlist_expander.py'],
  [('matrix to capacitors', 'klayout_pex/klayout/netlist_expander.py: NetlistExpander.expand')])

P('C20', 'The expanded 2.5D netlist contains exactly the summarised parasitics',
  'Every summarised capacitance and resistance becomes exactly one device between exactly these nets, with its value in SI units; '
  'nets of the circuit are reused by their expanded name (also VSUBS and unnamed ones) and only unknown nodes are created; only '
  'capacitors are removed when devices are not blackboxed; the given netlist and other circuits are left alone.',
  'all summaries, net names, values and device kinds',
  'No test expands a 2.5D result.',
  ['klayout_pex/rcx25/netlist_expander.py', 'klayout_pex/rcx25/extraction_results.py'],
  [('parasitics to devices', 'klayout_pex/rcx25/netlist_expander.py: RCX25NetlistExpander.expand')])

P('C21', 'Netlist reduction only drops what is below the threshold',
  'Parallel capacitors and resistors of one class are merged, merged capacitors below the threshold disappear, all others keep their '
  'total value and nets; resistors, other devices, other circuits, nets, pins and the given netlist stay as they are.',
  'all values, thresholds and connections of the devices',
  'The tests reduce two netlists and assert nothing.',
  ['klayout_pex/klayout/netlist_reducer.py'],
  [('reduction', 'klayout_pex/klayout/netlist_reducer.py: NetlistReducer.reduce')])

P('C22', 'The capacitance CSV lists every parasitic capacitor with identifiable nets',
  'The CSV report has one row per parasitic capacitor of the top circuit, with its name, the (expanded) names of its two nets and its '
  'value in femtofarad; other devices do not appear.',
  'all devices, net names (also unnamed nets) and values',
  'No test looks at this report.',
  ['klayout_pex/klayout/netlist_csv.py'],
  [('rows', 'klayout_pex/klayout/netlist_csv.py: NetlistCSVWriter.write_csv')])

P('C23', 'The netlist drawing shows every device and connects exactly what is connected',
  'The JSON description contains every pin, capacitor, resistor and subcircuit instance exactly once with its value, two terminals '
  'carry the same bit exactly when they are on the same net, ground symbols sit on the ground nets, and a device that cannot be drawn '
  'is reported instead of dropped.',
  'all connections, names, values and instance counts',
  'The tests print the description of two netlists without asserting anything.',
  ['klayout_pex/netlistsvg/netlist_json.py'],
  [('description', 'klayout_pex/netlistsvg/netlist_json.py: NetlistJSONWriter.netlist_json_dict')])

P('C16', 'The FasterCap result is the last matrix of the log, complete and in place',
  'Whatever a FasterCap log contains before, between and after its capacitance matrices, the parsed result is the last matrix: its '
  'dimension, its conductor names in order and every entry at its row and column with its value. A log without a matrix is an error, '
  'never an empty or an earlier result.',
  'all matrices, names, values, numbers of iterations and surrounding log lines within the bounds',
  'One stored log is tested.',
  ['klayout_pex/fastercap/fastercap_runner.py'],
  [('log parser', 'klayout_pex/fastercap/fastercap_runner.py: fastercap_parse_capacitance_matrix')])

P('C17', 'The FastCap result is the last matrix of the log, complete and in its unit',
  'Whatever a FastCap log contains, the parsed result is its last capacitance matrix with its dimension, conductor names in order and '
  'every entry at its row and column, converted from the unit named in the heading, whatever the column widths. A log without a matrix is an error.',
  'all matrices, names, values, units, column widths and surrounding log lines within the bounds',
  'One stored log is tested.',
  ['klayout_pex/fastcap/fastcap_runner.py'],
  [('log parser', 'klayout_pex/fastcap/fastcap_runner.py: fastcap_parse_capacitance_matrix')])

P('C18', 'Capacitance matrices survive storing, loading and symmetrising',
  'Writing a matrix as CSV and reading it back gives the same conductors in the same order and the same entries; averaging the '
  'off-diagonals replaces exactly each pair of mutual entries by their mean, keeps the diagonal and leaves the given matrix alone; '
  'a file without rows is an error.',
  'all matrices, names and separators within the bounds',
  'The tests read two stored matrices.',
  ['klayout_pex/common/capacitance_matrix.py'],
  [('CSV and averaging', 'klayout_pex/common/capacitance_matrix.py: parse_csv, write_csv, averaged_off_diagonals')])

P('C28', 'Magic extraction files are read without loss and reported at their place',
  'Every port, node, substrate and device of a .ext file and every rnode and resistor of a .res.ext file is read once with all its '
  'fields, whatever the names, order and unrelated lines between them; every cell of a run is paired with its own resistance file; '
  'the report contains one marker per entry, at the location the file gives, under the category of its kind and cell; the analyzer, '
  'run as a program, saves the complete report of the given run directory at the given path or as report.rdb.gz in that directory, and '
  'rejects a missing directory.',
  'all names, numbers, declaration orders, file combinations and database units within the bounds',
  'The tests parse two stored files.',
  ['klayout_pex/magic/magic_ext_file_parser.py', 'klayout_pex/magic/magic_ext_data_structures.py', 'klayout_pex/magic/magic_log_analyzer.py'],
  [('file parsers', 'klayout_pex/magic/magic_ext_file_parser.py: parse_magic_ext_file, parse_magic_res_ext_file, parse_magic_pex_run'),
   ('report', 'klayout_pex/magic/magic_log_analyzer.py: MagicLogAnalyzer.analyze, main')])

P('C26', 'Tools run with exactly the requested options, failure is never a result',
  'FasterCap, FastCap, Magic and netlistsvg are started once, with exactly the options and files requested, relative files resolved '
  'against the right directory; their complete output is in the log file; any exit status but 0 is an error. KLayout LVS gets exactly '
  'the requested layout, schematic and database paths and never merges or drops devices or nets.',
  'all exit statuses, outputs, option values and switch combinations within the bounds',
  'The tests never start a tool.',
  ['klayout_pex/fastercap/fastercap_runner.py', 'klayout_pex/fastcap/fastcap_runner.py', 'klayout_pex/magic/magic_runner.py',
   'klayout_pex/netlistsvg/netlistsvg_runner.py', 'klayout_pex/klayout/lvs_runner.py'],
  [('runners', 'run_fastercap, run_fastcap, run_magic, run_netlistsvg, LVSRunner.run_klayout_lvs')], over=['inputs', 'fault_sequences'])

P('C29', 'The Magic script extracts the requested cell with exactly the requested options',
  'In every mode the script reads the given layout, flattens exactly the requested cell, extracts it with the given halo, thresholds, '
  'tolerance, short and merge modes, includes capacitances exactly in modes CC and RC and resistances exactly in modes R and RC, and '
  'writes the netlist to the requested file, in an order in which every setting precedes the step it affects.',
  'all modes, numbers, paths and cell names within the bounds',
  'No test covers the script.',
  ['klayout_pex/magic/magic_runner.py'],
  [('script', 'klayout_pex/magic/magic_runner.py: prepare_magic_script')])

P('C30', 'Options select exactly what they name',
  'A choice pattern includes exactly the choices it names (all but the excluded ones, or none but the included ones), whatever the '
  'order, case and spacing, both when filtering a list and when asked for one choice; contradictory patterns are errors. Boolean '
  'options accept exactly the documented spellings. An environment setting wins over the default of its own variable only.',
  'all names, patterns, texts and variable settings within the bounds',
  'The tests cover two settings of one variable.',
  ['klayout_pex/util/multiple_choice.py', 'klayout_pex/util/argparse_helpers.py', 'klayout_pex/env.py'],
  [('patterns', 'klayout_pex/util/multiple_choice.py: MultipleChoicePattern'), ('booleans', 'klayout_pex/util/argparse_helpers.py: true_or_false'),
   ('environment', 'klayout_pex/env.py: Env.from_os_environ')])

P('C32', 'A repaired marker database has every category its items refer to',
  'After the repair every item\'s category path exists exactly once, whatever characters the category names contain; categories already '
  'there, items and the original file are left alone and nothing else is added.',
  'all category names, hierarchies and subsets of missing categories within the bounds',
  'The repair is only triggered by a bug of KLayout, no test covers it.',
  ['klayout_pex/klayout/repair_rdb.py'],
  [('category paths', 'klayout_pex/klayout/repair_rdb.py: parse_category_path'), ('repair', 'klayout_pex/klayout/repair_rdb.py: repair_rdb_xml, repair_rdb')])

P('C25', 'The LVS database used is the one of the requested layout in its current state',
  'Whatever runs came before (other layouts, cells, PDKs or output directories sharing the cache, changed layouts, failed LVS runs), the '
  'database an extraction works on was made from the requested layout in its current state; a database from the cache is used only if it is '
  'not older than the layout; if LVS leaves no database this is an error, never a database of an earlier run. A database given by the user '
  'is used as it is.',
  'all histories of runs, modification times and failures within the bounds',
  'The tests never run the command line flow, let alone twice.',
  ['klayout_pex/kpex_cli.py'],
  [('LVS cache', 'klayout_pex/kpex_cli.py: KpexCLI.create_lvsdb')], over=['histories', 'fault_sequences', 'inputs'])

P('C34', 'Impossible requests are rejected, others resolved to the right cell and files',
  'A run without an engine, without input, with missing files, an unknown or ambiguous cell, an invalid log level or pattern is rejected '
  'before anything runs, and nothing else is; otherwise the run works on the requested cell (or the only top cell), exported on its own '
  'if the layout contains more, with the given schematic or a dummy one of this cell, in an output directory of its own per layout and cell.',
  'all combinations of options, missing files and cell names within the bounds',
  'The tests never run the command line flow.',
  ['klayout_pex/kpex_cli.py'],
  [('argument validation', 'klayout_pex/kpex_cli.py: KpexCLI.validate_args')])

P('C03', 'The 2.5D engine extracts every conductor under its drawn layer',
  'The result of the 2.5D engine for a cell consists of exactly the overlap, sidewall and fringe capacitances of all conductors of the '
  'process stack: every LVS layer of a stack layer counts under its drawn layer (several LVS layers of one drawn layer together, black '
  'boxed device layers not at all), other LVS layers contribute nothing, and the substrate plane reaches one halo beyond the cell. '
  'Capacitances appear exactly in the modes CC and RC, resistances exactly in R and RC; halo scaling and triangulation parameters are used as given.',
  'all positions and sizes, assignments to LVS layers and nets, modes, parameters, halos and database units',
  'Tests run the engine on a few fixed cells in one mode each.',
  ['klayout_pex/rcx25/extractor.py', 'klayout_pex/rcx25/pex_mode.py'],
  [('layer merge and stage selection', 'klayout_pex/rcx25/extractor.py: RCX25Extractor.extract_cell'),
   ('mode predicates', 'klayout_pex/rcx25/pex_mode.py: PEXMode.need_capacitance, need_resistance')])

P('C13', 'The extraction context keeps layer, net and place of everything extracted',
  'The context built from an LVS database holds exactly the non-empty LVS layers the technology lists, grouped by GDS layer, each shape '
  'with its net and at its place in the top cell (also from rotated or mirrored device cells), without capacitor and resistor layers when '
  'devices are black boxes; layers the technology does not list are set apart. Shapes of a net or a layer are complete and unmixed, the '
  'bounding box encloses the cell, every label inside a pin shape is a pin with the net of that shape on its drawn layer, and every device '
  'keeps its class, parameters and terminals with their nets and their shapes on the extracted layers.',
  'all layer orders, positions, orientations, net names, devices, connections, pins and labels',
  'Tests look at a few cells drawn for the purpose.',
  ['klayout_pex/klayout/lvsdb_extractor.py'],
  [('layer map and annotation', 'klayout_pex/klayout/lvsdb_extractor.py: KLayoutExtractionContext.build_LVS_layer_map, nonempty_extracted_layers'),
   ('devices and pins', 'klayout_pex/klayout/lvsdb_extractor.py: KLayoutExtractionContext.devices_by_name, pins_pb2_by_layer')])

P('C24', 'The reports of a run are complete and state what was extracted',
  'A FasterCap run leaves, each in its own file of the output directory, the last matrix of the field solver as it is and averaged, a '
  'netlist with a capacitor for every positive mutual and self capacitance of the averaged matrix, the reduced netlist, and a table with '
  'these capacitors in femtofarad. A 2.5D run lists every pair of nets once with the sum of its partial capacitances, every pair of '
  'resistor nodes once, writes the same to the netlist, hands on the result, and repairs the marker database exactly when it cannot be loaded.',
  'all matrices, partial capacitances, resistances, net names and options within the bounds',
  'The tests compare stored results of single cells.',
  ['klayout_pex/kpex_cli.py', 'klayout_pex/common/capacitance_matrix.py', 'klayout_pex/klayout/netlist_csv.py'],
  [('FasterCap flow', 'klayout_pex/kpex_cli.py: KpexCLI.run_fastercap_extraction'), ('2.5D flow', 'klayout_pex/kpex_cli.py: KpexCLI.run_kpex_2_5d_engine')])

P('C14', 'The field solver model contains every conductor and dielectric in its place',
  'The model handed to the field solver contains, for every net of the cell, its shapes on every metal, contact and diffusion layer at the '
  'height and thickness of the process stack, the substrate below everything (kept clear of diffusions) as VSUBS, and every selected dielectric: '
  'field oxide, sidewall and conformal dielectrics around their metal from the inside out, and the simple dielectric filling the rest up to '
  'the next metal. Permittivities and model parameters are those given.',
  'all shapes, net names, heights, thicknesses, widths, permittivities, dielectric filters and stacks within the bounds',
  'No test without the field solver looks at the model of a cell.',
  ['klayout_pex/fastercap/fastercap_input_builder.py', 'klayout_pex/tech_info.py'],
  [('stack traversal', 'klayout_pex/fastercap/fastercap_input_builder.py: FasterCapInputBuilder.build')])

P('C15', 'Field solver panels cover exactly the interfaces between the materials',
  'Wherever a point belongs to the first conductor or else the first dielectric (in the order of the materials) that covers it, the panels '
  'between two different materials cover exactly their common boundary, each part once and facing the outer material; contacting layers of '
  'one net form one conductor. The files written contain every panel with its reference point outside, the right permittivities and one '
  'conductor per net under its name, in files that exist under unique names.',
  'all positions, sizes, heights, overlaps, priorities, net names, permittivities and database units within the bounds',
  'The test builds one fixed model and only looks for log output.',
  ['klayout_pex/fastercap/fastercap_model_generator.py'],
  [('event legalisation', 'klayout_pex/fastercap/fastercap_model_generator.py: FasterCapModelGenerator.finish_z, _merge_events'),
   ('vertical panels', 'klayout_pex/fastercap/fastercap_model_generator.py: FasterCapModelGenerator.next_z, generate_v_surface'),
   ('file output', 'klayout_pex/fastercap/fastercap_model_generator.py: FasterCapModelGenerator.write_fastcap')])

P('C27', 'A run does exactly what was asked for, with the requested options',
  'A command line run reads the given database or makes one by LVS, and starts exactly the requested engines, once each, on the requested '
  'cell with exactly the option values given (or the documented defaults), whatever other options are set; the engines share one extraction '
  'context. The layout dumps contain every LVS layer with its shapes, named and unnamed apart. A rejected run starts nothing and ends with an '
  'error status; the log files of every run of a shared output directory end up with their own run and an earlier run keeps its logs.',
  'all combinations of engines, inputs and options, all option values, up to three runs into one output directory',
  'The tests never run the command line.',
  ['klayout_pex/kpex_cli.py'],
  [('option parsing', 'klayout_pex/kpex_cli.py: KpexCLI.parse_args'), ('run', 'klayout_pex/kpex_cli.py: KpexCLI.main, run_magic_extraction, run_fastercap_extraction, setup_logging')],
  over=['inputs', 'histories'])

P('C31', 'A layout converted to another PDK keeps every shape on its counterpart layer',
  'Converting a layout between the two PDKs puts every shape and text, at its place in every (sub)cell and top cell, on exactly the layers '
  'that correspond to its layer; shapes of layers without counterpart are kept on a layer of their own (number + 1000); nothing is lost, '
  'doubled or mixed, and the direction of the conversion follows from the layers of the layout. Every layer of a layer property file is read '
  'with its name, purpose and numbers; a mapping that names unknown layers is an error that names them. Documented log levels are accepted, '
  'unknown ones and missing files end the run with an error status before anything is written.',
  'all layouts over the layers of both PDKs, positions, orientations, layer names and numbers within the bounds',
  'No test covers this tool.',
  ['convert_layout_pdk.py'],
  [('layer mapping', 'convert_layout_pdk.py: LayerMapping.dest_layers_by_source_gds_pair'), ('conversion', 'convert_layout_pdk.py: main'),
   ('layer properties', 'convert_layout_pdk.py: parse_layers')])

P('C33', 'The netlist tool draws the requested circuit into the requested file',
  'The netlist drawing tool draws the circuit named by --cell (in any case) or else the only top circuit of the netlist, rejects a netlist '
  'without it or with several top circuits before anything is written, writes the drawing to the requested file (or to one named after the netlist in a directory named after the circuit) and '
  'accepts exactly the documented log levels.',
  'all netlists, cell names, options and missing files within the bounds',
  'No test covers this tool.',
  ['klayout_pex/netlist/netlist_cli.py'],
  [('circuit selection and output', 'klayout_pex/netlist/netlist_cli.py')])

P('C35', 'The marker report shows each parasitic once, in place and labelled',
  'Every extracted overlap, sidewall and fringe capacitance appears in the marker report exactly once, under its layers and nets, numbered, '
  'with its value, and with the shapes it was computed from at their true place in the cell (whatever the direction of the edge). The '
  'resistance request and its result appear with every pin, device terminal, region, conductor, via, node and resistor once, under their own '
  'names, nets and layers, at their coordinates, and with their values.',
  'all capacitances, layers, net names, positions, distances, nodes and resistances within the bounds',
  'No test opens a report.',
  ['klayout_pex/rcx25/extraction_reporter.py', 'klayout_pex/rcx25/c/geometry_restorer.py', 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py',
   'klayout_pex/rcx25/c/overlap_extractor.py'],
  [('categories and items', 'klayout_pex/rcx25/extraction_reporter.py: ExtractionReporter'),
   ('places', 'klayout_pex/rcx25/c/geometry_restorer.py: GeometryRestorer')])


P('C38', 'The geometry check reports exactly the open surfaces; STL files are complete',
  'The geometry check of a field solver model reports no error when the surface of every net and material is closed and consistently oriented, '
  'however its faces are triangulated and whatever T-junctions this leaves, and reports each net or material whose surface misses a panel, has '
  'one twice, turned over, displaced or booked to another net, by its name; models generated from separate conductors pass. The STL export '
  'writes, for every net and material with panels, one file of its name with each of its panels once, facing outwards.',
  'all positions and cuts of the faces, all defect places and displacements within the bounds',
  'No test runs the check or the export.',
  ['klayout_pex/fastercap/fastercap_model_generator.py'],
  [('closed surfaces', 'klayout_pex/fastercap/fastercap_model_generator.py: FasterCapModelGenerator.check, _check_tris, _split_edges, _is_antiparallel, _normed_edges'),
   ('surfaces', 'klayout_pex/fastercap/fastercap_model_generator.py: FasterCapModelGenerator._collect_diel_tris, _collect_cond_tris'),
   ('export', 'klayout_pex/fastercap/fastercap_model_generator.py: FasterCapModelGenerator.dump_stl, _write_as_stl')])

P('C39', 'Every log message of a sufficient level is shown once, with its full text',
  'A message is shown exactly once if its level is at least the configured one (ALL shows everything) and not at all otherwise, with its '
  'arguments inserted and its text unchanged, brackets included; output of other programs is shown plainly by a handler of its own; configuring '
  'the logger again does not double messages; additional handlers get every message while they are registered.',
  'all levels, message functions, message texts and orders of registering handlers within the bounds',
  'No test looks at what is logged.',
  ['klayout_pex/log/logger.py'],
  [('levels', 'klayout_pex/log/logger.py: LogLevel, set_log_level, get_log_level'),
   ('handlers', 'klayout_pex/log/logger.py: configure_logger, LogLevelFilter, LogLevelFormatter, register_additional_handler, deregister_additional_handler')])

P('C36', 'The LVS rule decks derive every layer, device and connection the PDK defines',
  'For every layout, the LVS scripts of a PDK derive each computed layer from the drawn layers as the PDK defines it, connect exactly the layers '
  'that are connected on silicon and extract exactly the devices that are drawn.',
  'all layouts', 'Tests never run LVS.',
  ['pdk/sky130A/libs.tech/kpex/sky130.lvs', 'pdk/ihp_sg13g2/libs.tech/kpex/sg13g2.lvs'], [('rule decks', 'pdk/*/libs.tech/kpex')])

P('C37', 'The shipped technology data state the values of the PDK',
  'The technology files written by the C++ generator contain every layer, height, permittivity, capacitance and resistance of the PDK documentation.',
  'all layers of the shipped PDKs', 'Tests load the files without comparing them with the PDK documentation.',
  ['cxx/gen_tech_pb/main.cpp'], [('generator', 'cxx/gen_tech_pb')])
