CHECKED = {
"C01": "Every text over several small alphabets up to a length, in every lexical context, is lexed and decoded by bluejay and by the reference lexer; verdict and value must agree.",
"C02": "Every token sequence up to a length and every document within a deviation budget of a large document is parsed by bluejay and by the reference parser; verdict and the tree read back through the public traits must agree.",
"C03": "As C02 for schema documents; the tree is read back from the built schema.",
"C04": "Every short text over an alphabet of troublesome characters, every truncation and disturbance of whole documents, and every invalid request and schema of a list of templates, laid out with every combination of line breaks, comments and multi-byte characters within a deviation budget, is parsed, built and validated; the errors must be there, survive both conversions, and be placed where the reference lexer and parser get stuck or where the template marks. Nesting is explored in child processes.",
"C05": "Every schema document of the spaces is built by bluejay and by the reference; verdict and everything the built schema says through the public traits (references, implementors, roots, built-in types and directives) must agree.",
"C06": "Every generated executable document is printed, parsed again and printed again: equal trees, equal text.",
"C07": "Every generated schema is printed, parsed and built again, and printed again: equal definitions, equal text.",
"C08": "Every pair of schemas of the spaces (two independent edits of one schema, full products of applied directives, type references, defaults and member lists) is compared in both directions by bluejay and by the reference; the multisets of changes, their paths and the names in the messages must agree.",
"C09": "For every pair of schemas of the spaces the criticality of each change must be the reference's; for every pair of a second space in which nothing is reported as breaking, each of ~600 requests that is valid against the old schema must be valid against the new one and keep its response shape.",
"C10": "Every document of the spaces (deviations and full products over schemas made for the rule) is validated by bluejay and by the reference validator; the multiset of this rule's errors, each with the path of the element it names, must agree.",
"C11": "Every document of the spaces (deviations and full products over schemas made for the rule) is validated by bluejay and by the reference validator; the multiset of this rule's errors, each with the path of the element it names, must agree.",
"C12": "Every document of the spaces (deviations and full products over schemas made for the rule) is validated by bluejay and by the reference validator; the multiset of this rule's errors, each with the path of the element it names, must agree.",
"C13": "Every document of the spaces (deviations and full products over schemas made for the rule) is validated by bluejay and by the reference validator; the multiset of this rule's errors, each with the path of the element it names, must agree.",
"C14": "Every document of the spaces (deviations and full products over schemas made for the rule) is validated by bluejay and by the reference validator; the multiset of this rule's errors, each with the path of the element it names, must agree.",
"C15": "Every document of the spaces (deviations and full products over schemas made for the rule) is validated by bluejay and by the reference validator; the multiset of this rule's errors, each with the path of the element it names, must agree.",
"C16": "Every document of the spaces (deviations and full products over schemas made for the rule) is validated by bluejay and by the reference validator; the multiset of this rule's errors, each with the path of the element it names, must agree.",
"C17": "Every document of the spaces (deviations and full products over schemas made for the rule) is validated by bluejay and by the reference validator; the multiset of this rule's errors, each with the path of the element it names, must agree.",
"C18": "Every document of the spaces (deviations and full products over schemas made for the rule) is validated by bluejay and by the reference validator; the multiset of this rule's errors, each with the path of the element it names, must agree.",
"C19": "Every literal and JSON value of the spaces is coerced to every input type of the spaces by bluejay and by the reference coercion; the multiset of errors, each with its path, must agree, between literal and JSON forms too.",
"C20": "Every operation and set of variable values of the spaces is analysed by bluejay and by the reference analysis (an independent recursive evaluation over collected selections); missing, unused and invalid variables, with the coercion errors of each, must agree.",
"C21": "Every operation and set of variable values of the spaces is analysed by bluejay and by the reference analysis (an independent recursive evaluation over collected selections); selection of the operation and the results of all analyses must agree, alone and combined in one pass.",
"C22": "Every operation and set of variable values of the spaces is analysed by bluejay and by the reference analysis (an independent recursive evaluation over collected selections); depth must agree.",
"C23": "Every operation and set of variable values of the spaces is analysed by bluejay and by the reference analysis (an independent recursive evaluation over collected selections); default and connection cost must agree.",
"C24": "Every operation and set of variable values of the spaces is analysed by bluejay and by the reference analysis (an independent recursive evaluation over collected selections); the lists over each limit must agree.",
"C25": "Every operation and set of variable values of the spaces is analysed by bluejay and by the reference analysis (an independent recursive evaluation over collected selections); the deprecated usages with their reasons must agree.",
"C26": "Every set of hidden elements of the spaces (every subset of small schemas, few hidden or few visible of a large one) is applied through a warden; everything the scoped schema says, prints and makes of requests must be what the schema document without the hidden elements says.",
"C27": "Every sequence of questions up to a length is asked of a scoped schema, with every set of hidden elements of the spaces; every answer, then and afterwards, must be that of a fresh scoped schema, also for two scoped schemas over one cache.",
"C28": "Every schema of the spaces (input object graphs with every wrapping of every edge, repeated names) is validated with bluejay's rules for schemas and with the reference; the multisets of errors and the references they name must agree.",
"C29": "Every text of the lexical and grammatical spaces is parsed in both modes: default acceptance implies the same result in compatibility mode; additional acceptances must be explained by the two documented relaxations.",
"C30": "Every selection and order of rules and analyzers over the documents of the spaces is run together, alone, repeatedly, over shared and fresh caches, and over documents whose definitions are reordered; each rule's errors and each analyzer's result must be those it gives alone.",
"C31": "Every program of the spaces (field types and wrappings, selection sets and fragments, roots, names, input types, for the serde, borrowing and miniserde codecs) is compiled against the working tree and loaded; every response and input within a deviation budget of a plain one is given to the generated types, and acceptance and the values held must be those the reference derives from schema and query. Every selection form at every position, and option, alias and document forms, must compile exactly when valid and supported.",
"C32": "A logging visitor is run over every document and operation of the spaces (with every set of conditions and variable values) alone, in tuples of two to ten, and with extra information; the calls it gets must be those of the walk of the reference over the text, with the definitions looked up by the reference.",
}
NOT = {}
