"""Per property: (what is run symbolically and the oracle, why tests cannot reach it)."""
TEXT = {
"C01": ("`TreeBuilder.rebuild/process` (with `Changes`, `get_prepared_lexer`, `replace_tree`, ...) updates a tree after symbolic edits; `build_tree` of the final text is the reference, compared node by node, with open lexicons, and the reported region against the real differences of old and new tree. Changes during the processing are made by a text object that adds a change at the k-th match.",
  "the wrong answer needs a token boundary, a context and an edit that meet in one place, often behind 10 tokens of look-back"),
"C02": ("`Lexer.events` with the parse functions made by `Lexicon` (regular expression, plain-string and default branches). Reference: an independent lexer in the harness that tries the rules one by one at every position.",
  "all texts over all combinations of rule kinds, defaults and target kinds"),
"C03": ("`TargetFactory` and the lexer's stack. Reference: applying each target to a list.", "every sequence, from every stack"),
"C04": ("`Context.find*`: positions, lengths and gaps of the tokens and the query are unbounded integers, the shape of the tree is a choice. Reference: linear scan.", "binary searches go wrong only for special gaps and boundaries"),
"C05": ("all navigation of `Node`, `Token`, `GroupToken`, `Context` on symbolic trees. Reference: depth-first lists made when the tree was made.", "every node and pair of nodes in every shape"),
"C06": ("`Range.from_tree`, `Token.range`, `slices`, `tokens`, with unbounded positions. Reference: scan of all tokens; the targets reported with slices are applied to a stack.", "every interval in every tree"),
"C07": ("`MutableString`/`Document` editing with opaque texts: the resulting text is compared at an arbitrary symbolic index with the definition of simultaneous replacement (`z3` integers, uninterpreted text).", "any number of characters, any overlap of regions"),
"C08": ("`Document` histories: a list of the texts (opaque) as the reference, with a saved mark.", "histories up to the bound are all decided, not sampled"),
"C09": ("`_update_cursors` through real editing; reference: each position mapped by definition, and the 'surviving character' formulation (an arbitrary character in the selection that survives is still in it, one outside is not).", "positions are unbounded integers"),
"C10": ("`Block` and the block functions of `AbstractDocument`; reference: `str.split`.", "every text and every position, also for separators of two characters"),
"C11": ("`replace/re_sub/trim/translate` and cursor strips; reference: the operation on the slice of a plain string.", "every region, text and count"),
"C12": ("`Changes` and `TreeBuilder.get_changes` with unbounded positions; reference: the hull of the edits mapped through each other, and the claim 'head and tail are unchanged' for an arbitrary character.", "arithmetic over all positions"),
"C13": ("`format_ranges`, `format_text`, `util.merge_adjacent`, `fix_boundaries`; reference: format of an arbitrary position.", "every selection, gaps and language switches"),
"C14": ("`HtmlFormatter`, `SimpleHtmlFormatter`, `escape`, `inline_css`; reference: a small HTML reader in the harness (`html.unescape`).", "every text with markup characters"),
"C15": ("`Query`: each axis/filter and pairs of them; reference: list comprehension over the plain tree, `delete` against the remaining nodes.", "every tree and every subset of the nodes"),
"C16": ("`Transformer.transform_text`, `transform_tree`, `build` after `TreeBuilder` updates; reference: recursive evaluation of a tree built from scratch.", "which methods exist, edits and cache reuse are all symbolic"),
"C17": ("`StandardAction`; reference: tuples of names.", "names are symbolic"),
"C18": ("`Lexicon.__call__`, `LexiconDescriptor`; reference: tuples (language, name, argument); the parse function against one made from scratch.", "every order of derivations"),
"C19": ("`ruleitem`, `rule`, `Lexer.filter_actions`; reference: a direct evaluator in the harness, `variations` compared with all values.", "every expression up to the bound with every text and argument"),
"C20": ("`regex` functions; the generated pattern is matched by the regular expression model against a symbolic text; reference: set of words.", "every text against every list up to the bound"),
"C21": ("`css.StyleSheet/Style/Element`; reference: the cascade and matching rules of CSS written down in the harness.", "trees, selectors, order and importance are symbolic"),
"C22": ("`css` conversions; reference: the CSS definition in integer arithmetic.", "every component value"),
"C23": ("`Indenter`, `AbstractIndenter`; reference: a stack of indents, line by line; everything but leading space must be untouched.", "every text and region"),
"C24": ("`Registry`; reference: the documented order; weights are symbolic integers.", "every combination of weights"),
"C25": ("`docio`, `util.get_bom_encoding` on symbolic bytes with models of the codecs; reference: the text that was written, and the documented precedence.", "every byte sequence"),
"C26": ("`util.Observable`, `Switch`; reference: a list.", "every history and re-entrant call"),
"C27": ("`Worker.process` stage by stage, `WorkerDocumentMixin`; between the stages symbolic operations (edits, root lexicon, transformer, requests with and without callback, a second pending process); whatever is handed out is compared with a fresh tree and transform of the current text.", "the schedule is a symbolic variable"),
"C28": ("every lexicon of the bundled languages that a beginning reaches; reference: faithfulness of the events (order, texts, nesting), tree against events, updated tree against new tree.", "hundreds of patterns that meet in combinations no test writes down"),
"C29": ("`JsonTransform`, `CsvTransform`, `IniTransform`, numbers; reference: grammars in the harness (RFC 8259, RFC 4180), number words generated from the value.", "every text of the bound"),
"C30": ("`Theme`, `TextFormat`, `Style.properties`, `css_class`; colours and sizes are symbolic integers in the precedence and arithmetic harnesses; reference: declarations sorted by (importance, specificity, order), documented tables of values.", "every order of rules, shorthand and importance; every pair of formats"),
"C31": ("`WorkerDocumentMixin.token/open_lexicons/modified_range`, `AbstractTextRange`, `Block.tokens`; symbolic text, positions and edits in a language with nested contexts, unmatched text and a token that spans lines; reference: overlap of intervals over the list of all tokens, brackets counted in the text.", "positions at the edges of tokens and lines, gaps, the end of the text"),
"C32": ("`introspect.*`, `LexiconValidator` and the lexer on the same language; texts are symbolic, rules and default targets are symbolic choices; reference: lists of what the harness languages can give, a direct simulation of default targets.", "combinations of rule kinds, variations inside dynamic items, loops of default targets over several lexicons"),
"C33": ("the helpers of `parce.util`; keys, positions and modification times are symbolic integers, `os.path.getmtime` is replaced by a symbolic clock during the check; reference: the history of calls.", "every history of equal and different keys, instances and times; inheritance of dispatchers"),
}
