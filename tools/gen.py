#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and props.json from one table (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'xsd-internal/src/'
DEC, LIB = 'xsd/src/decode.rs', 'xsd/src/lib.rs'
ENGINE = ['the LLVM IR rustc emits for the harness binary (release profile, all crates but the precompiled standard library\'s non-generic parts inlined or linked in as IR) is executed; the IR of precompiled std functions is modelled by the executor where it has no body',
          'allocation never fails; single thread; HashMap iteration order is that of one fixed seed (generated items are compared as sets)']
CORP = 'the schema corpus in harness/schemas stands for the supported constructs; a property is decided for the code generated from these schemas, not for every schema'
P = []
def prop(id, title, statement, over, text, why, files, mech, bin, bounds, assumptions, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bin=bin, bounds=bounds, assumptions=assumptions, note=note))

prop('C01', 'Round trip: decoding what a value encodes to gives the value back',
     'For every schema that compiles and every value of a type generated from it, the value encodes without error, and decoding the produced document gives back a value equal to the original. Values that no document can denote (an empty list where the field is an optional list or a list with at least one item) are excluded.',
     ['inputs', 'programs'], 'every generated type, every value of it',
     'each test encodes one literal value of one schema and compares text; combinations of optional parts, list lengths, alternatives, text and nesting are never varied',
     [I + 'ast/root.rs', I + 'ast/leaf.rs', I + 'ast/element_definition.rs', I + 'ast/element_content.rs', I + 'xsd/schema.rs', DEC, LIB],
     [('generated to_xml / from_xml pair', I + 'xsd/schema.rs generate_element'), ('writer context', LIB), ('child cursor', DEC)],
     'c01', '48 document generators over 36 schemas: every combination of presence, 0-2 (one generator 1-5) list items, alternative and enumeration value; text leaves are one symbolic letter, numbers one symbolic digit', [CORP], '')
prop('C02', 'Decoding is faithful: a valid document decodes to exactly what it denotes',
     'For every schema that compiles, every document that is valid against it is accepted, and every field of the decoded value holds what the document says at the corresponding place: nothing lost, swapped, duplicated or defaulted.',
     ['inputs', 'programs'], 'every valid document of every supported schema',
     'tests decode one document per schema', [I + 'ast/root.rs', I + 'ast/leaf.rs', I + 'ast/leaf_content.rs', I + 'ast/attribute.rs', DEC],
     [('from_xml code generation', I + 'ast'), ('child cursor with look-ahead', DEC)],
     'c02', 'as C01; documents are written by an independent writer from an independent oracle (value, document) pair', [CORP], '')
prop('C03', 'Documents that break the schema are rejected',
     'A document with a required element or attribute missing, misnamed or (elements) in another namespace, with text or an attribute outside the lexical space of its number, boolean or enumeration type, or different from its fixed value, is rejected with an error; it never decodes to a value. Not promised: facets other than enumeration, numeric occurrence bounds above one, and additional elements after the expected ones.',
     ['inputs', 'programs'], 'every valid document, every single-point corruption of it',
     'the tests contain a handful of negative cases; the corruption point and the rest of the document are never varied', [I + 'ast/leaf.rs', I + 'ast/attribute.rs', I + 'ast/leaf_content.rs', I + 'ast/literal_type.rs', DEC],
     [('try_next_child / try_attribute / parse errors', DEC)],
     'c03', 'every document of the C01 generators, every required element, attribute and typed text in it, broken in each applicable way; the corrupting character is symbolic', [CORP], '')
prop('C04', 'Encoding conforms: output is well-formed and denotes exactly the value',
     'For every value of a generated type the encoded document is well-formed UTF-8 XML that has exactly the elements (with the declared name, namespace, order and number), attributes and text that the value stands for under the schema, so that any other conforming consumer reads the same data. It starts with an XML 1.0 declaration.',
     ['inputs', 'programs'], 'every generated type, every value of it',
     'tests compare the output for one literal value per schema', [I + 'ast/root.rs', I + 'ast/leaf.rs', I + 'ast/element_definition.rs', I + 'ast/attribute.rs', LIB],
     [('to_xml code generation', I + 'ast'), ('writer context', LIB)],
     'c04', 'as C01; the output is parsed by roxmltree and compared with an independent document tree', [CORP, 'roxmltree reads XML correctly (its code is executed, not modelled)'], '')
prop('C05', 'Choices: exactly the alternative present is decoded and encoded',
     'For xs:choice, alone, nested, optional or repeated, with element, sequence or referenced alternatives, decoding selects exactly the alternative whose elements the document has at that place and fails if there is none where one is required; encoding writes exactly the alternative held, nothing of the others. Repeated choices keep their items in document order.',
     ['inputs', 'programs'], 'every list of children of elements with a choice in their content model',
     'tests decode one or two alternatives each', [I + 'xsd/parse/choice.rs', I + 'ast/root.rs', DEC], [('choice enum generation and lookahead', I + 'ast/root.rs')],
     'c05', '8 document generators, and 5 content models with arbitrary lists of up to 3-4 (thorough 5-7) children with symbolic names and texts against a regular-expression oracle', [CORP], '')
prop('C06', 'xs:all: order of members carries no meaning',
     'For a type whose content is xs:all, all orders of its members decode to the same value; a required member may not be missing in any order, an optional one may be, and the round trip holds.',
     ['inputs'], 'all permutations and subsets of the members', 'tests decode one permutation', [I + 'xsd/parse/complex_type.rs', I + 'ast/leaf.rs', DEC], [('unordered child lookup', DEC)],
     'c06', 'all permutations of 2 schemas, and arbitrary lists of up to 5 (thorough 7) children with symbolic names', [CORP], '')
prop('C07', 'Namespaces: elements are told apart by namespace and name, not prefix',
     'A decoded element is recognised by its namespace and local name however the document declares namespaces (default or any prefix, anywhere), and not recognised in any other namespace; elementFormDefault decides whether local elements belong to the target namespace or to none. Encoding puts every element into the namespace the schema gives it.',
     ['inputs', 'programs', 'configurations'], 'every namespace declaration style, every other namespace', 'tests use one prefix style and never a wrong namespace',
     [I + 'xsd/context.rs', I + 'ast/namespaces.rs', I + 'xsd/schema.rs', DEC, LIB], [('name resolution', I + 'xsd/context.rs'), ('namespace comparison', DEC)],
     'c07', '10 document generators over 8 schemas (qualified, unqualified, imported, re-exported, no namespace), 3 declaration styles; one required element moved to a namespace with a symbolic letter', [CORP], '')
prop('C08', 'Include and import: splitting a schema over files does not change it',
     'Declarations reached through xs:include or xs:import (nested, repeated, circular, from subdirectories) compile to the same types and accept and produce the same documents as if they stood in one file, in the namespace of the file that declares them. A file that cannot be read, or an include without a location, makes compilation fail with an error that names the file.',
     ['inputs', 'programs', 'configurations'], 'every way to split declarations over files', 'one test each for include and import, one document each',
     [I + 'xsd/schema.rs', I + 'xsd/context.rs'], [('include/import merging', I + 'xsd/schema.rs parse_schema_with_context'), ('files loaded once', I + 'xsd/context.rs')],
     'c08', '', [CORP], '')
prop('C09', 'Enumerations: values and variants correspond one to one',
     'For an xs:enumeration type every listed value decodes to its own variant, the variant encodes and prints as exactly that value, different values have different variants, and every other text is rejected.',
     ['inputs', 'programs'], 'every text; every enumeration of values', 'tests use two values per enumeration and no near miss',
     [I + 'ast/root.rs', I + 'xsd/parse/simple_type.rs'], [('variant naming', I + 'ast/root.rs escape_enum_names')],
     'c09', 'arbitrary printable ASCII texts of up to 4 (thorough 9) characters, and every one-character change of the 8 enumerated values, as content and as attribute', [CORP], '')
prop('C10', 'Cardinality: occurrence constraints decide the shape of a field',
     'minOccurs, maxOccurs and use decide whether a field is the plain type, an Option, a Vec or an Option of Vec: optional exactly if the minimum is 0, a list exactly if the maximum exceeds 1 or is unbounded, attributes optional unless required, prohibited attributes absent. Unparsable occurrence or use values are rejected.',
     ['inputs', 'programs'], 'every value of the occurrence attributes', 'tests use 0, 1 and unbounded on a few elements',
     [I + 'xsd/parse/element.rs', I + 'xsd/parse/sequence.rs', I + 'xsd/parse/complex_type.rs', I + 'xsd/parse/attribute.rs', I + 'ast/leaf.rs'], [('parse_min_occurs, parse_max_occurs', I + 'xsd/parse/element.rs'), ('is_vec, is_optional', I + 'ast/leaf.rs')],
     'c10', 'minOccurs and maxOccurs absent, unbounded, or any one or two digits, on elements, references, inline types, sequences, choices and xs:all members; any use value of 7 to 10 letters', [], '')
prop('C11', 'Fixed values are enforced on input and always written',
     'An element or attribute with a fixed value is accepted only with exactly that value and rejected with any other, and encoding always writes that value. Fixed values are compared as text.',
     ['inputs'], 'every text', 'tests decode the fixed value itself only', [I + 'ast/leaf_content.rs', I + 'ast/attribute.rs', I + 'xsd/parse/element.rs'], [('FixedMismatch check', I + 'ast/leaf_content.rs')],
     'c11', 'arbitrary printable ASCII texts of up to 4 (thorough 6-7) characters in 5 places with a fixed value', [CORP, 'other spellings of a fixed number are not decided'], '')
prop('C12', 'Decoding never panics or hangs',
     'For every string whatsoever, decoding it with a generated type terminates and returns a value or an error; it never panics, aborts or runs on.',
     ['inputs'], 'every input string', 'tests decode well-formed documents', [DEC, I + 'ast/root.rs', I + 'ast/leaf.rs'], [('error returns instead of unwrap', DEC)],
     'c12', 'arbitrary strings of up to 4 (thorough 6) bytes on their own and inside the root element; in 3 (thorough 5) documents an arbitrary byte in place of or before any byte, every truncation and every cut of 7 bytes; 25 (thorough 32) document generators with children reversed, doubled, removed, renamed, nested in each other or mixed with text', [CORP, 'documents nest less than the stack allows'], '')
prop('C13', 'Compiling a schema never panics or hangs',
     'For every string given as schema, parsing it and generating code terminates and yields code or an error; it never panics, aborts or runs on.',
     ['inputs', 'programs'], 'every input string', 'tests compile well-formed supported schemas', [I + 'xsd/schema.rs', I + 'xsd/parse', I + 'xsd/node.rs', I + 'ast', I + 'utils.rs'], [('XsdError instead of unwrap', I + 'xsd/error.rs')],
     'c13', 'arbitrary strings of up to 4 (thorough 6) bytes, and of up to 3 (thorough 5) bytes in 6 places of a schema; 4 schemas that together use all supported constructs with every single change of structure (an element emptied, renamed to or given any XSD element, or a copy of any other; an attribute removed, given one of 17 (thorough 29) odd values, or any XSD attribute added); one (thorough 4) schema with a character inserted, replaced or 9 cut out anywhere, or truncated; includes of 19 odd locations; in the thorough tier whatever is generated must parse as Rust', [], '')
prop('C14', 'Unsupported schema constructs are rejected, not ignored',
     'A schema that uses a construct the compiler does not implement inside a type or element declaration (an unknown XSD element, or an unknown un-namespaced attribute or attribute value, such as mixed content, groups, wildcards, unions, lists, restrictions of complex types, unknown built-in types, undeclared prefixes) is rejected with an error rather than compiled to code that silently mishandles documents.',
     ['inputs', 'programs'], 'every unknown element or attribute name, in every place', 'no test compiles an unsupported schema',
     [I + 'xsd/node.rs', I + 'xsd/parse'], [('prevent_unvisited_attributes / prevent_unvisited_children', I + 'xsd/node.rs')],
     'c14', '', [], '')
prop('C15', 'Content models: order, number and grouping of children are preserved',
     'For content models built from sequences, choices, optional and repeated particles and nested groups, every list of children the model allows is accepted, keeps order and content through decoding and encoding, and every list that lacks something the model requires is rejected. Additional elements after a complete match are not promised to be rejected.',
     ['inputs', 'programs'], 'every list of children', 'tests decode one list of children per schema', [I + 'ast/leaf.rs', I + 'ast/root.rs', I + 'xsd/parse/sequence.rs', DEC], [('lookahead of optional groups', I + 'ast/root.rs'), ('child cursor', DEC)],
     'c15', '12 content models; all lists of up to 3-5 (thorough 5-8) children, each with a symbolic one-letter name and text, against a regular-expression oracle', [CORP], '')
prop('C16', 'Errors name the cause',
     'When a document is rejected because an element or attribute is missing, the error message contains its name; when it is rejected for a value, the message contains that value. A choice without a matching alternative is reported with the name of the choice.',
     ['inputs'], 'every rejected document', 'no test looks at error messages', [DEC, I + 'ast/literal_type.rs', I + 'ast/leaf_content.rs', I + 'ast/root.rs'], [('FromXmlError', DEC)],
     'c16', '19 document generators, broken in one place as in C03', [CORP], '')
prop('C17', 'Extension: a derived type has everything of its base plus its own',
     'A type that extends another (complexContent or simpleContent) decodes and encodes the content and attributes of its base followed by what it adds, through chains of extensions, and requires what either requires.',
     ['inputs', 'programs'], 'every value of extended types', 'three tests with one document each', [I + 'xsd/parse/complex_content.rs', I + 'xsd/parse/simple_content.rs', I + 'ast/element_content.rs', LIB], [('virtual leaves', I + 'xsd/parse/complex_content.rs'), ('wrapped context', LIB)],
     'c17', '5 document generators in both directions and with single-point corruption; 2 content models with lists of up to 4-5 (thorough 7-8) children', [CORP], '')
prop('C18', 'Names: every XML name becomes a usable Rust identifier',
     'Whatever the names of elements, attributes, types and enumeration values (reserved words, digits, hyphens, dots, non-ASCII letters), the generated code is syntactically valid Rust and the names written to and read from documents are the original ones.',
     ['inputs', 'programs'], 'every XML name', 'tests use plain names', [I + 'utils.rs', I + 'ast/name.rs', I + 'ast/leaf.rs', I + 'ast/attribute.rs', I + 'ast/root.rs'], [('escape_ident', I + 'utils.rs'), ('escape_enum_names', I + 'ast/root.rs')],
     'c18', 'names of up to 4 (thorough 6) symbolic ASCII characters as child, attribute and choice alternative; of 1 symbolic character, and of up to 3 (thorough 4) representatives of all kinds of characters, as element, type, enumeration value and inline type; all Rust keywords and 41 peculiar names in 7 places; one schema of peculiar names with all its documents in both directions', [], '')
prop('C19', 'Schema presentation is irrelevant',
     'Schemas that differ only in what XML and XML Schema give no meaning to (prefix of the XSD namespace, comments, processing instructions, white space, attribute order, quotes, foreign-namespace attributes, annotations without documentation) compile to the same code.',
     ['programs'], 'every presentation', 'every test schema is written one way', [I + 'xsd/node.rs', I + 'xsd/context.rs', I + 'xsd/parse'], [('namespace-based lookup', I + 'xsd/node.rs')],
     'c19', '', [], '')
prop('C20', 'Document presentation is irrelevant',
     'Documents that differ only in what XML gives no meaning to (namespace prefixes, comments, processing instructions, white space between elements, attribute order, quotes, CDATA sections, character references, XML declaration, empty-element tags) decode to the same value.',
     ['inputs'], 'every valid document, every presentation', 'every test document is written one way', [DEC], [('text and child access', DEC)],
     'c20', 'every document of the C01 generators in 11 presentations (10 single ones and all at once)', [CORP], '')
prop('C21', 'The macro keeps what the annotated module already contains',
     'Items, attributes and visibility of the module that carries the xsd::all attribute are kept, and the generated types are added to it.',
     ['programs'], 'every module', 'one test with one module', ['xsd-derive/src/lib.rs', 'xsd-derive/src/generator.rs'], [('generator', 'xsd-derive/src/generator.rs')],
     None, '', [], 'The code is a procedural macro: it runs inside the compiler through the proc_macro bridge, and a proc-macro crate exports nothing that a harness could link and execute symbolically; what the macro calls into (xsd-internal) is covered by the other properties.')
prop('C22', 'Literals: numbers and booleans keep their value',
     'Every literal in the lexical space of xs:int, xs:long, xs:integer within 64 bits, xs:nonNegativeInteger, xs:decimal, xs:float and xs:boolean decodes to the number or truth value it denotes, white space around it ignored, the boundaries of the machine type included; text outside the lexical space, or out of range, is rejected; encoding writes a literal of the type that denotes the same value.',
     ['inputs'], 'every literal', 'tests decode a few small numbers', [I + 'ast/literal_type.rs', I + 'ast/leaf_content.rs', I + 'ast/attribute.rs', I + 'xsd/context.rs'], [('FromStr and Display of the machine types', I + 'ast/literal_type.rs')],
     'c22', 'arbitrary printable ASCII texts of up to 3 (booleans 5; thorough 5-7) characters per type; white space of every kind around one-digit numbers and the boolean literals; 6 (thorough 8) symbolic digits with sign; all last 4 (thorough 5-6) digits next to the limits of 32 and 64 bit types (encoding: up to 2 symbolic characters, and 19 magnitudes at powers of ten and the limits); decimals with up to 2+2 (thorough 4+4) symbolic digits; floats: 78 enumerated literals and INF, -INF, NaN (executed concretely on each path); as element, attribute, optional child, named simple type, simple content', [CORP], '')
prop('C23', 'Text is preserved character by character',
     'Every string of XML characters, in element content and in attribute values, is decoded exactly and survives encoding and decoding unchanged, with everything that is special to XML escaped.',
     ['inputs'], 'every string', 'tests use plain ASCII words', [DEC, I + 'ast/leaf_content.rs', I + 'ast/attribute.rs', LIB], [('escaping by the XML writer', LIB), ('text', DEC)],
     'c23', 'strings of up to 2 characters of ASCII, white space, and 2, 3 and 4 byte UTF-8 in 10 places; up to 4 (thorough 6) characters of ASCII and white space in two places', [CORP, 'control characters that XML 1.0 forbids are excluded'], '')
prop('C24', 'The order of declarations in a schema is irrelevant',
     'Reordering the top-level declarations of a schema (types before or after their use) does not change the generated types or how they decode and encode.',
     ['programs'], 'every order of declarations', 'every test schema has one order', [I + 'xsd/schema.rs', I + 'xsd/context.rs', I + 'ast/leaf_content.rs'], [('late resolution of names', I + 'xsd/context.rs')],
     'c24', '', [], '')
prop('C25', 'Documentation is carried over',
     'The text of xs:documentation of an element, type or attribute appears, with white space collapsed, as documentation of the generated item or field, and on no other.',
     ['inputs', 'programs'], 'every documentation text', 'tests do not look at documentation', [I + 'xsd/parse/annotation.rs', I + 'ast/leaf.rs', I + 'ast/attribute.rs', I + 'xsd/schema.rs'], [('cleanup_docs', I + 'xsd/parse/annotation.rs')],
     'c25', '', [], '')

have = {f[:-3] for f in os.listdir(V + '/harness/src/bin')}
TECH = 'symbolic execution of the compiled code (LLVM IR) with an SMT solver (Z3), bounded'
man = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[], notes='No hooks in /repo. check.py builds the executor (engine/), compiles the harness (harness/) against /repo\'s working tree to LLVM IR, executes it symbolically and replays every counterexample on the native build.')
props, lines = {}, []
for p in P:
    if p['bin'] and p['bin'] not in have: continue
    lines.append(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
        anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))))
    if not p['bin']:
        man['not_applicable'].append(dict(property=p['id'], reason=p['note'])); continue
    man['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'], technique=TECH, level='model_checking',
        level_note='Holds for every value of the symbolic inputs within the bounds: %s. Outside the bounds nothing is claimed. Trusted: the executor (every path class is cross-checked by replaying solver models natively), rustc, Z3%s.' % (p['bounds'], ''.join('; ' + a for a in p['assumptions']))))
    props[p['id']] = dict(bin=p['bin'], level='model_checking', assumptions=p['assumptions'] + ENGINE, bounds=p['bounds'])
open(V + '/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
json.dump(props, open(V + '/props.json', 'w'), indent=1)
print(len(lines), 'properties', len(man['checks']), 'checks')
