G = "Random exploration with a fixed case count per tier: strong on the generated distribution, no proof of absence. "
NOTES = {}
NOTES.update({
"C02": ("model-based generation: a random sector-file model is rendered to text with random layout and the parse is compared to the model",
        G + "Trusts the harness's renderer of the sector-file syntax."),
"C04": ("random and boundary-directed coordinates against integer arc-millisecond arithmetic and a text round trip",
        G + "Trusts the harness's own integer decoding of the text."),
"C01": ("grammar-based and mutational fuzzing of every reader and of whole adaptations under catch_unwind and a watchdog",
        G + "Grammar sentences are derived from the pest grammars of the tree under test, mutations from realistic files."),
"C03": ("round-trip property over generated sectors: parse(write(sct)) equals sct on the grid of the file format, and writing is a fixed point",
        G + "Trusts the harness's comparison of two parsed sectors."),
"C05": ("metamorphic fuzzing: each generated file is read in every encoding and line-ending variant and the results must agree",
        G + "Trusts the harness's windows-1252 encoder."),
"C10": ("generated airway graphs (branching, one-way, namesakes) against a reference path search",
        G + "Trusts the harness's reference expansion of an airway."),
"C11": ("generated databases with colliding names and generated waypoint names against an independent resolver (Vincenty for bearing and range)",
        G + "Trusts the harness's resolver of waypoint names."),
"C06": ("model-based generation: a random ese model is rendered to text with random layout and the parse is compared to the model",
        G + "Trusts the harness's renderer of the ese syntax."),
"C07": ("generated border-line graphs on an integer lattice against an Eulerian-circuit oracle and exact segment multisets",
        G + "Trusts the harness's integer geometry."),
"C08": ("generated airspaces against a reference grouping, and repeated loads of one content compared",
        G + "Trusts the harness's reference grouping."),
"C09": ("stateful model-based testing: random histories of changes, rebuilds, copies, round trips, overlays and queries against an exhaustive scan",
        G + "Trusts the harness's exact integer geometry."),
"C12": ("generated profiles loaded from disk and compared with an independent merge of their source models",
        G + "Trusts the harness's own rendering and reference model."),
"C13": ("generated groups of related agreements: pairwise key comparison against the tuple of names and a reference split after loading",
        G + "Trusts the harness's own rendering and reference model."),
"C14": ("generated list files with duplicates and comments against a first-entry-wins map",
        G + "Trusts the harness's own rendering and reference model."),
"C15": ("generated fix databases: read against the entries, write/read round trip in millionths of a degree, text fixed point",
        G + "Trusts the harness's own rendering and reference model."),
"C16": ("generated profiles and folder layouts against reference path composition, and relocated adaptations compared with the original",
        G + "Trusts the harness's own path composition."),
"C17": ("generated symbology and TopSky files with random subsets of items and drawing scripts against a table of item-to-setting mappings and defaults",
        G + "Trusts the harness's own table of items and defaults."),
"C18": ("generated asr files against a first-value-wins model with defaults, and reordered files compared with the original",
        G + "Trusts the harness's own renderer of asr lines."),
"C19": ("generated TopSky folders rendered to their three files, read back and compared definition by definition",
        G + "Trusts the harness's own renderer of TopSky records."),
"C20": ("generated maps mixing configuration and drawing records, loaded and compared element by element with a reference interpreter",
        G + "Trusts the harness's interpreter of map records and its place database."),
"C21": ("blocks of all 24-bit colours round-tripped, near-miss texts against a reference reader, generated colour sources against the precedence rule",
        G + "Trusts the harness's reader of colour texts."),
"C22": ("generated squawk files against an enumerated code table, generated three-level timings against a field-by-field rule",
        G + "Trusts the harness's octal arithmetic."),
"C23": ("generated sector files with shared names, unknown places and branching airways, loaded and compared segment by segment with the file",
        G + "Trusts the harness's place database and colour precedence."),
"C24": ("generated profiles: export/import round trip judged on JSON and on the debug tree, repeated loading, adaptations of mutated files, random jsonnet overlays against a reference merge, failing overlays",
        G + "Trusts serde_json and the harness's merge of JSON objects; import itself is judged by the round trip."),
"C25": ("fault injection: generated sets of missing, damaged and exchanged files of a complete adaptation, judged by each reader's own verdict and by the adaptation without the plugin",
        G + "Trusts each reader's verdict on its own file."),
"C26": ("generated files of every format: the JSON of the parsed value against its debug text, member by member",
        G + "Trusts the derived Debug implementations to show every field."),
"C27": ("generated values next to and apart from one another: equality, hashing and sets against the drawn names and cells, letters against tables, printed columns put together again",
        G + "Positions very close to the border between two cells of a millionth of a degree are not drawn."),
})
