p("C01", "Incremental re-parse equals a fresh parse",
  "After any sequence of text changes or changes of the root lexicon, updating an existing tree incrementally yields a tree that is identical (contexts, tokens, positions, texts, actions, groups, root lexicon, lexicons left open at the end) to a tree built from scratch from the final text. The reported changed region contains every place where the old and the new tree differ. This also holds when a change arrives while an earlier update is still being computed, and when previews are requested.",
  ["inputs", "histories", "programs"], "every text, every position/removed/added of every edit, every harness language, every point of a running update at which a further edit may arrive",
  "tests/test_treebuilder.py rebuilds a handful of fixed texts; whether the reused head and tail of the old tree are right depends on the edit position, lexicon state and token grouping around it",
  ["parce/treebuilder.py", "parce/treebuilderutil.py", "parce/lexer.py"],
  [("TreeBuilder.build_new_tree / replace_tree / process", "parce/treebuilder.py"), ("Changes, get_prepared_lexer, new_tree", "parce/treebuilderutil.py")],
  ["Document/Worker get_root()", "TreeBuilder.rebuild()"])
p("C02", "Lexing is faithful, well nested and terminates for every text",
  "For every text the token stream is ordered, never overlapping, never empty, stays inside the text, and each token's text equals the source text at its position and is what the first matching rule of the current lexicon gives there. When every lexicon has a default action the tokens cover the text without gaps. The root context is never left, and lexing terminates, skipping no text that can be matched, even when default targets or empty matches change contexts back and forth without consuming text (endless pushing of ever new contexts excluded, as documented).",
  ["inputs", "programs"], "every text up to the stated length and every rule set of the stated shape (rules, default action, default target, push/pop targets)",
  "the tests lex fixed example files; gaps, empty matches and circular default targets depend on the combination of rules and text",
  ["parce/lexer.py", "parce/lexicon.py", "parce/rule.py"],
  [("Lexer.events", "parce/lexer.py"), ("Lexicon.parse construction", "parce/lexicon.py")], ["Lexer.events()", "parce.events()", "parce.root()"])
p("C03", "Targets move the context stack exactly as documented",
  "Executing a sequence of targets (pops and pushes of lexicons) one by one and executing the single target accumulated from that sequence give the same context stack, for any starting stack. The items of a rule's target (negative numbers, positive numbers, lexicons, derived lexicons, text dependent targets) change the stack exactly as documented, the root context always remains, and the targets reported with lexing events reproduce the lexer's own context stack.",
  ["inputs", "programs", "histories"], "every sequence of targets with arbitrary pop counts and pushes",
  "tests use a few fixed rule tables",
  ["parce/target.py", "parce/lexer.py", "parce/rule.py"], [("TargetFactory.push/pop/add/get", "parce/target.py"), ("Lexer.events", "parce/lexer.py")], ["Lexer.events() targets"])
p("C04", "Position lookups in the tree agree with a linear scan",
  "Looking up a token, or a direct child, at, left of, right of, before or after a position, with or without the path, gives the same answer as scanning all tokens from left to right, for every tree and every position.",
  ["inputs"], "every tree shape within the bound, arbitrary integer token positions and lengths, every integer query position",
  "tests probe a few positions in one tree; binary search errors show only at token boundaries and gaps",
  ["parce/tree.py"], [("Context.find*, binary searches", "parce/tree.py")], ["Context.find_token() and friends"])
p("C05", "Tree navigation is mutually consistent",
  "Forward and backward iteration (also up to an ancestor), siblings, first/last token, ancestors and their indices, common ancestor, parent index, height, depth, group membership and position of every node in every tree agree with the plain depth-first order of the tree. Copying a subtree yields an equal, independent tree; deleting a node removes exactly that node and the ancestors left empty by it.",
  ["inputs"], "every tree shape within the bound, every node and every pair of nodes",
  "tests walk one example tree",
  ["parce/tree.py"], [("Node/Token/Context navigation methods", "parce/tree.py")], ["parce.tree API"])
p("C06", "Ranges and slices select exactly the overlapping tokens",
  "A range or slice of the tree between two positions or two tokens covers exactly the tokens that lie (partly) in that interval, in order, whichever way it is iterated, and the slices of each context it reports contain exactly the children involved. An interval that touches no token gives no range.",
  ["inputs"], "every tree shape within the bound, arbitrary integer positions and interval ends",
  "tests cover one range in one text", ["parce/tree.py"], [("Range, slices(), tokens_range()", "parce/tree.py")], ["Range.tokens()", "Context.slices()", "tree.get_range"])
p("C07", "A batch of edits replaces all regions simultaneously or not at all",
  "Edits collected in one (possibly nested) editing block are applied simultaneously against the original text: the result equals the original with every region, given with Python's slice meaning, replaced by its new text, edits at the same place in order of issue. Overlapping edits raise an error, and an exception inside the block discards the edits; both leave the text unchanged and do not disturb later edits. The change notification names the region from the start of the first to the end of the last edit.",
  ["inputs", "histories"], "texts of any length, any number of edits up to the bound at arbitrary integer positions, any replacement texts, any order of issue",
  "tests apply a few fixed edits", ["parce/mutablestring.py", "parce/document.py"],
  [("AbstractMutableString.__setitem__ / _apply_changes", "parce/mutablestring.py"), ("AbstractDocument contents_changed", "parce/document.py")], ["document text", "text_changed()"])
p("C08", "Undo and redo restore the text and modified state",
  "For every history of edits, undos and redos, undo returns the document to the exact text before the last edit block, redo re-applies it, a new edit discards the redo branch, and the modified flag is false exactly when the text state is the one last saved as unmodified. Availability of undo and redo is reported correctly and notified when it changes; while undo recording is switched off or an edit block is rejected, nothing is recorded.",
  ["histories", "inputs"], "every history of operations up to the bound with arbitrary edit positions and texts",
  "tests run one linear undo/redo history", ["parce/document.py"], [("AbstractDocument undo/redo stacks", "parce/document.py")], ["Document.undo/redo/modified"])
p("C09", "Cursors keep marking the same text across edits",
  "After any batch of edits, undo or redo, every live cursor's selection covers the same surviving characters as before: positions before an edit stay, positions after an edit shift by its size difference, positions inside a removed region move to its edge, and text inserted at the end of a selection is included. A cursor used as index reads and edits exactly its selection.",
  ["inputs", "histories"], "any number of cursors and edits within the bound at arbitrary integer positions",
  "tests move one cursor with one edit", ["parce/document.py"], [("AbstractDocument._update_cursors", "parce/document.py")], ["Cursor.pos, Cursor.end"])
p("C10", "Blocks partition the text into its lines",
  "Iterating over blocks, from either side and over any region, yields consecutive, gapless lines covering the text; start, end, text and number of a block, the block at any position, next/previous block, the block with a number, and the block count all agree with splitting the text on the line separator.",
  ["inputs"], "every text up to the bound over an alphabet with newline, every position and number",
  "tests look at one text", ["parce/document.py"], [("Block, find_block, blocks, find_start_of_block...", "parce/document.py")], ["Document.blocks(), find_block()"])
p("C11", "Text operations touch only their region and do what they say",
  "Replace, regular-expression substitution, translate and trim on a document region (given as Python slice positions, open or negative ones included) and the strip operations of a cursor selection touch only what is inside the region and give the result of the equivalent plain string operation on that region.",
  ["inputs"], "every text, region and argument within the bound", "tests use a few fixed strings",
  ["parce/document.py"], [("AbstractDocument.replace/re_sub/translate/trim, Cursor methods", "parce/document.py")], ["document text"])
p("C12", "Merged pending changes cover every edit",
  "When several text changes accumulate before they are processed, the merged change record covers all changed regions (and no more than their hull) and maps the text before all edits to the text after all edits: the unchanged head and tail really are unchanged. The last text and the last root lexicon given are kept, and taking the changes empties the record.",
  ["inputs", "histories"], "every sequence of edits up to the bound at arbitrary integer positions and sizes", "tests never merge changes",
  ["parce/treebuilderutil.py"], [("Changes.add/new_position", "parce/treebuilderutil.py")], ["treebuilderutil.Changes"])
p("C13", "Formatting covers the selection without overlap",
  "The formatted ranges produced for any tree selection are sorted, non-overlapping, inside the selection and give each position the format of its token (of the theme for its language when themes are combined, falling back to the base or unparsed format where there is none); adjacent ranges are merged only when their formats are equal. The pieces of formatted text concatenate to exactly the selected text.",
  ["inputs", "configurations"], "every tree shape and selection within the bound, with and without embedded themes", "tests format one example",
  ["parce/formatter.py", "parce/util.py"], [("AbstractFormatter.format_ranges/format_text, merge_adjacent, fix_boundaries", "parce/formatter.py, parce/util.py")], ["Formatter.format_ranges()"])
p("C14", "HTML output preserves and escapes the text",
  "The HTML produced for any text, selection and style contains the selected text exactly, with markup-significant characters in text and attributes escaped, so that decoding the HTML gives back the text and each piece's style; complete documents do the same with the base style.",
  ["inputs"], "every text within the bound over an alphabet with markup-significant characters", "tests escape nothing",
  ["parce/out/html.py"], [("HtmlFormatter", "parce/out/html.py")], ["HtmlFormatter.html()"])
p("C15", "Queries select exactly the documented nodes",
  "Every query axis and filter (also negated, combined one after another, and with regular expressions, positions, lengths or actions) selects exactly the nodes given by its documented meaning, in order. Deleting the selected nodes removes exactly those nodes and the contexts left empty by it.",
  ["inputs"], "every tree shape and every composition of axes and filters within the bound", "tests run a few queries on one tree",
  ["parce/query.py"], [("Query axes and filters", "parce/query.py")], ["Query iteration"])
p("C16", "Transforming text, tree and updated tree give the same result",
  "Transforming a text directly, transforming its tree, and transforming incrementally after edits (re-using cached results) give the same result, namely that of applying each language's methods bottom-up to the children of each context, for every text and edit history. Contexts without a transform method or of a language without transform are handled as documented, and the item list helpers find exactly the documented items.",
  ["inputs", "histories"], "every text and edit within the bound", "tests transform one text",
  ["parce/transform.py"], [("Transformer.transform_text/transform_tree/invalidate_node", "parce/transform.py")], ["Transformer.transform_text()", "transform_tree()"])
p("C17", "Standard actions form a consistent hierarchy",
  "For all standard actions, membership, parent/child relation, iteration over the path, name and string representation agree with the path of names they were created with; combining or intersecting actions gives the documented nearest common ancestor and creating an action twice gives the same object.",
  ["inputs"], "every pair of actions within the bound of a symbolic action forest", "tests check few actions",
  ["parce/standardaction.py"], [("StandardAction", "parce/standardaction.py")], ["StandardAction operators"])
p("C18", "Derived lexicons are identified by their argument and language",
  "Calling a lexicon with equal arguments gives the identical derived lexicon; lexicons differing in argument, name or language are different, and inherited lexicons bind to the language they are accessed from. A derived lexicon parses with the rules for its own argument, also after other derivations were used.",
  ["inputs", "programs"], "every argument value and pair of derivations within the bound", "tests check one derivation",
  ["parce/lexicon.py", "parce/language.py", "parce/util.py"], [("Lexicon.__call__, LexiconDescriptor", "parce/lexicon.py")], ["Lexicon identity"])
p("C19", "Dynamic rule items evaluate to their documented value",
  "Evaluating a dynamic rule item, directly or in two phases (argument first, match later), gives the documented value for every text, match group and argument; and the declared possible outcomes of an item contain every value it can evaluate to. Lexing with dynamic patterns, actions (per group, or using another lexicon for part of the text) and targets gives the tokens and contexts these values stand for.",
  ["inputs", "programs"], "every expression tree within the bound and every argument/text/match", "tests evaluate a few items",
  ["parce/rule.py", "parce/ruleitem.py"], [("RuleItem.evaluate/pre_evaluate/variations", "parce/ruleitem.py")], ["rule evaluation"])
p("C20", "Generated regular expressions match exactly the given words",
  "The regular expression built from a word list matches exactly these words, and finds the longest of them, in any surrounding expression; character class helpers match exactly the (un)wanted characters. The plain-string shortcut is taken only for expressions that match just that string, so that a lexicon with a single pattern finds what the regular expression finds, whatever its flags.",
  ["inputs"], "every word list / character set within the bound and every input string", "tests compare a few strings",
  ["parce/regex.py"], [("words2regexp, make_charclass, to_string", "parce/regex.py")], ["generated regex"])
p("C21", "CSS cascade and selector matching follow the CSS rules",
  "A style sheet's properties for an element are those of the matching rules in order of importance, specificity (of the selector that matches) and source order, conditional and imported rules taken into account in their place. Selectors with names, ids, classes, attributes, pseudo classes and combinators match exactly the elements CSS defines.",
  ["inputs"], "every small selector and element path, every set of declarations within the bound", "tests check few",
  ["parce/css.py"], [("StyleSheet, Style.properties, match_selectors", "parce/css.py")], ["css.Style"])
p("C22", "CSS text, colour and escape values convert without loss",
  "Escaping or quoting a text and reading it back from CSS gives the same text, and quoted strings with escapes are read as CSS defines. Colour notations (hexadecimal, rgb and rgba with numbers or percentages) denote the colour CSS defines, and writing a colour and reading it back gives the same colour.",
  ["inputs"], "every component value and every string within the bound", "tests check few",
  ["parce/css.py"], [("escape/unescape, color functions", "parce/css.py")], ["css functions"])
p("C23", "Indenting changes only leading whitespace of the selected lines",
  "Indenting, increasing or decreasing indent and stripping trailing whitespace of any region alter nothing but the leading (or trailing) whitespace of lines in that region and never touch lines that may not be indented. Indenting gives every line the level implied by the indent and dedent marks before it and at its start, whether they come from the text or from the tokens of several languages; automatic indent of one line agrees with it.",
  ["inputs"], "every text and region within the bound", "tests indent one text",
  ["parce/indent.py"], [("Indenter.indent", "parce/indent.py")], ["document text"])
p("C24", "Language lookup returns the best registered match",
  "Finding a language by name returns the registered entry whose name or alias matches best; suggestions by file name, mime type or contents contain exactly the matching entries, best weight first, and no entry that is better in all respects comes after a worse one. Lookups not satisfied by a registry consult its fallback registry, inheriting entries replace the inherited ones, and every bundled language is found and can be loaded.",
  ["inputs", "configurations"], "every registry content within the bound", "tests look up a few",
  ["parce/registry.py"], [("Registry", "parce/registry.py")], ["find(), suggest()"])
p("C25", "Loading and saving preserve text and encoding",
  "Decoding the bytes written for a document with any supported encoding and byte order mark gives back the document's text, and whatever was loaded can be saved and loaded again unchanged. A byte order mark, then an encoding declared near the start of the text, then the requested encoding, then the language's default determine the encoding, as documented.",
  ["inputs"], "every short byte prefix, text and encoding within the bound", "tests load one file",
  ["parce/docio.py", "parce/util.py"], [("DocumentIOMixin", "parce/docio.py"), ("get_bom_encoding", "parce/util.py")], ["docio load/save"])
p("C26", "Notifications reach exactly the connected listeners in order",
  "Every emission calls exactly the currently connected listeners in priority order, one-shot listeners once only, disconnected or blocked ones never, also when listeners connect, disconnect or emit while being called or raise an exception. Context-managed listeners are entered in order and left in reverse order.",
  ["histories"], "every history of connect/disconnect/emit operations within the bound", "tests emit a few signals",
  ["parce/util.py"], [("Observable", "parce/util.py")], ["Observable.emit"])
p("C27", "A worker never hands out an outdated tree or transform",
  "For every interleaving of text changes, changes of root lexicon or transformer, processing stages and requests, a tree or transform result handed out as final corresponds to the document's current text, lexicon and transformer. Pending work is always completed, waiting then returns, and callbacks of requests are called exactly once.",
  ["schedules", "histories"], "every interleaving of edits and processing stages within the bound", "tests use one schedule",
  ["parce/work.py", "parce/treebuilder.py"], [("Worker, BackgroundWorker", "parce/work.py")], ["Worker.get_root()", "get_transform()"])
p("C28", "Every bundled language lexes every text faithfully and survives edits",
  "For every bundled language and every text, lexing ends and gives ordered, non-overlapping, non-empty tokens whose text is the source text at their position, and the tree contains exactly these tokens in contexts that follow from the reported targets. After an edit, the updated tree is the tree of the new text.",
  ["inputs", "programs"], "every bundled language, a number of contexts of each, every few characters and every edit of one character there",
  "the tests lex one well-formed example file per language; users type every malformed intermediate state",
  ["parce/lang/*.py", "parce/lexer.py", "parce/lexicon.py"], [("language definitions", "parce/lang/*.py"), ("Lexer.events", "parce/lexer.py")], ["parce.root()", "TreeBuilder.rebuild()"])
p("C29", "The bundled transforms give the data a text denotes",
  "Transforming a valid JSON text gives the data RFC 8259 defines, a CSV text gives its records and fields (RFC 4180, empty fields being None), an INI text gives its sections, keys and values with escapes resolved and surrounding space removed. Numbers written in English, Dutch, German or French words give their value, whatever their case, and several numbers after each other give all values.",
  ["inputs"], "every short text of these formats in several surroundings; every number below 1000 and a dense sample of structure up to 100 million", "the tests transform a few fixed texts",
  ["parce/lang/json.py", "parce/lang/csv.py", "parce/lang/ini.py", "parce/lang/numbers.py"], [("JsonTransform, CsvTransform, IniTransform, NumbersTransform", "parce/lang/")], ["transform_text()"])
p("C30", "Themes give every action and role the format their style sheet says",
  "The text format a theme gives for an action, or for a role and state, has exactly the properties of the matching rules of its style sheets, each from the declaration with the highest precedence (importance, specificity, order), shorthand properties included; an action matches the rules whose classes are all among its own and its ancestors' names. Every documented property value is read as documented. Adding two formats gives the other's properties on top of ours, subtracting removes exactly what is the same, and adding a difference gives the sum. Writing a format as CSS and reading it back gives an equal format.",
  ["inputs"], "two or three rules with up to two declarations over every group of related properties; every documented value; every pair of property groups", "the tests do not read themes apart from formatting one text",
  ["parce/theme.py", "parce/css.py"], [("Theme, TextFormat, css_class()", "parce/theme.py"), ("Style.properties(), CssTransform", "parce/css.py")], ["Theme.textformat()", "Theme.baseformat()", "TextFormat.css_properties()"])
p("C31", "A document, its blocks and cursors give the tokens of their piece of text",
  "For every text and position, Document.token(), Cursor.token() and Block.token() return the token that starts at or contains the position, else the one that ends there, else the next one on the same line, and never one of another line. The tokens of a cursor or block are exactly those that overlap its piece of text, in order. After any edit, the open lexicons are those of the contexts not closed at the end of the text, and all tokens outside the modified range are what they were (moved by the change in length). Cursors and blocks are ordered by position, and equal only when they are of the same kind and the same piece of the same document.",
  ["inputs", "histories"], "every text over an alphabet with nested contexts, gaps and tokens spanning lines, every position, interval and edit", "the tests do not ask a document, cursor or block for tokens",
  ["parce/work.py", "parce/document.py", "parce/tree.py"], [("WorkerDocumentMixin.token(), open_lexicons(), modified_range()", "parce/work.py"), ("AbstractTextRange, Block", "parce/document.py")], ["Document.token()", "Cursor.tokens()", "Block.tokens()", "Document.open_lexicons()", "Document.modified_range()"])
p("C32", "Introspection and validation of a language tell what parsing does",
  "Every action, lexicon and language that occurs in a tree parsed from any text is among those that introspection reports for the language (actions chosen or delegated by dynamic rule items and inherited lexicons included), and nothing else is reported. The validator reports errors for exactly the lexicons with an invalid expression, rule, target (in any variation of a rule) or default, and for default targets that never end or stay where they are; validating again gives the same. With a language without errors lexing any text ends without an exception.",
  ["inputs"], "languages with every kind of rule item; every combination of rule kinds and default targets within the bound; every text within the bound", "the tests do not use introspection or validation",
  ["parce/introspect.py", "parce/validate.py", "parce/ruleitem.py", "parce/lexer.py"], [("lexicons(), rule_items(), standardactions(), languages()", "parce/introspect.py"), ("LexiconValidator", "parce/validate.py")], ["introspect.standardactions()", "introspect.languages()", "LexiconValidator.validate()"])
p("C33", "Dispatchers, switches, caches and stream helpers do what they document",
  "A Dispatcher calls, for every key, the method registered for it in the instance's class, with methods overridden in a subclass and keys added or redefined by a new Dispatcher in a subclass taking effect there and only there, and the default function (or nothing) for other keys. A Switch is true exactly while at least one of its contexts is active, per instance, also after exceptions. Cached functions, methods, properties and caching dictionaries call their function once per key (and instance), a file cache exactly when a file is new, changed or can't be inspected, and all return what the function returned. Merging adjacent actions joins exactly the directly adjacent pieces with equal action (and language); unrolling and splitting lists keep all items in order.",
  ["inputs", "histories"], "every key, every history of requests, nesting and modification times within the bound, tokens at any position", "the tests cover one or two calls",
  ["parce/util.py"], [("Dispatcher, Switch, cached_method(), cached_func(), caching_dict(), file_cache(), merge_adjacent_actions(), unroll(), split_list()", "parce/util.py")], ["Dispatcher", "Switch", "caching_dict()", "file_cache()", "merge_adjacent_actions()"])
