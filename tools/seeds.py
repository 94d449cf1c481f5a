"""The seeded bugs (developer data for mkseed.py)."""
I = 'xsd-internal/src/'
X = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"%s>%s</xs:schema>\n'
def x(body, attrs=''): return X % (attrs, body)
T = ' targetNamespace="urn:t" xmlns:t="urn:t" elementFormDefault="qualified"'
MOD = '#[xsd::all(schema = "s.xsd")]\nmod s {}\n'
COMP = '''use xsd::internal::xsd::schema::Schema;
#[allow(dead_code)]
fn compile(x: &str) -> Result<String, String> {
    Schema::parse(x, "/nonexistent/s.xsd").and_then(|s| s.generate_all()).map(|t| t.to_string()).map_err(|e| e.to_string())
}
#[allow(dead_code)]
fn xsd(b: &str) -> String { format!("<xs:schema xmlns:xs=\\"http://www.w3.org/2001/XMLSchema\\">{b}</xs:schema>") }
'''
SEEDS = []
def seed(id, prop, edits, needs, breaks, main, **files):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, files={k.replace('_xsd', '.xsd'): v for k, v in files.items()}))

seed('max-two', 'C10', [(I + 'ast/leaf.rs', 'MaxOccurs::Number(n) if n > 1 => true,', 'MaxOccurs::Number(n) if n > 2 => true,')],
     'an element with maxOccurs="2" exactly', 'a second occurrence is lost: the field is not a list',
     COMP + '''fn main() {
    let c = compile(&xsd("<xs:complexType name='T'><xs:sequence><xs:element name='a' type='xs:int' maxOccurs='2'/></xs:sequence></xs:complexType>")).unwrap();
    assert!(c.contains("Vec < i32 >"), "{c}");
}
''')
seed('all-forgets', 'C06', [('xsd/src/decode.rs', '            children.peeked.push_back(child);\n        }\n\n        None', '            if children.peeked.len() < 2 {\n                children.peeked.push_back(child);\n            }\n        }\n\n        None')],
     'an xs:all with at least four members, of which three stand before the one looked for', 'a member that was skipped while looking for another is lost',
     MOD + '''fn main() {
    let doc = "<r><b>1</b><c>2</c><d>3</d><a>4</a></r>";
    let v = s::R::from_xml(doc).unwrap();
    assert_eq!((v.a, v.b, v.c, v.d), (4, 1, 2, 3));
}
''', s_xsd=x('<xs:element name="r"><xs:complexType><xs:all>' + ''.join('<xs:element name="%s" type="xs:int"/>' % c for c in 'abcd') + '</xs:all></xs:complexType></xs:element>'))
seed('lookahead-first', 'C15', [(I + 'ast/root.rs', 'let checks = leaves.iter().scan(false, |prev_required, leaf| {', 'let checks = leaves.iter().take(2).scan(false, |prev_required, leaf| {')],
     'an optional (or repeated) group of which the first two elements are optional and absent', 'the group is taken for absent: its elements are silently dropped',
     MOD + '''fn main() {
    let v = s::R::from_xml("<r><a>1</a><d>3</d></r>").unwrap();
    assert!(format!("{v:?}").contains('3'), "{v:?}");
}
''', s_xsd=x('<xs:element name="r"><xs:complexType><xs:sequence><xs:element name="a" type="xs:int"/><xs:sequence minOccurs="0"><xs:element name="b" type="xs:int" minOccurs="0"/><xs:element name="c" type="xs:int" minOccurs="0"/><xs:element name="d" type="xs:int"/></xs:sequence></xs:sequence></xs:complexType></xs:element>'))
seed('enum-collide', 'C09', [(I + 'ast/root.rs', 'if variant_name.is_empty() || enum_names.contains_key(&variant_name) {\n                unknown_count += 1;', 'if variant_name.is_empty() || (unknown_count == 0 && enum_names.contains_key(&variant_name)) {\n                unknown_count += 1;')],
     'an enumeration with two pairs of values that map to the same variant name (e.g. a, A, b, B)', 'the second value that collides replaces the first: that value is no longer accepted',
     MOD + '''fn main() {
    for v in ["a", "A", "b", "B"] {
        let r = s::R::from_xml(format!("<r>{v}</r>")).unwrap();
        assert_eq!(r.0.to_string(), v);
    }
}
''', s_xsd=x('<xs:element name="r" type="E"/><xs:simpleType name="E"><xs:restriction base="xs:string">' + ''.join('<xs:enumeration value="%s"/>' % c for c in 'aAbB') + '</xs:restriction></xs:simpleType>'))
seed('qualified-any', 'C07', [(I + 'xsd/context.rs', 'if self.is_qualified && name.namespace == self.target_namespace {\n                    name.name.clone()', 'if self.is_qualified && (name.namespace == self.target_namespace || *id > 2) {\n                    name.name.clone()')],
     'an elementFormDefault="qualified" schema that uses elements of two other, imported namespaces', 'the imported element is written in the namespace of the importing schema',
     MOD + '''fn main() {
    let doc = "<r xmlns='urn:t'><o:b xmlns:o='urn:o'>1</o:b><p:c xmlns:p='urn:p'>2</p:c></r>";
    let v = s::R::from_xml(doc).unwrap();
    let out = String::from_utf8(v.to_xml().unwrap()).unwrap();
    assert_eq!(s::R::from_xml(&out).expect(&out), v);
}
''', s_xsd=x('<xs:import namespace="urn:o" schemaLocation="o.xsd"/><xs:import namespace="urn:p" schemaLocation="p.xsd"/><xs:element name="r"><xs:complexType><xs:sequence><xs:element ref="o:b"/><xs:element ref="p:c"/></xs:sequence></xs:complexType></xs:element>', T + ' xmlns:o="urn:o" xmlns:p="urn:p"'),
     o_xsd=x('<xs:element name="b" type="xs:int"/>', ' targetNamespace="urn:o" elementFormDefault="qualified"'),
     p_xsd=x('<xs:element name="c" type="xs:int"/>', ' targetNamespace="urn:p" elementFormDefault="qualified"'))
seed('ext-required', 'C17', [(I + 'xsd/parse/complex_content.rs', '            is_virtual: true,\n            min_occurs,\n            max_occurs: MaxOccurs::default(),', '            is_virtual: true,\n            min_occurs: MinOccurs(min_occurs.0.max(attributes_follow(&children))),\n            max_occurs: MaxOccurs::default(),'),
      (I + 'xsd/parse/complex_content.rs', 'pub fn parse<', 'fn attributes_follow(children: &crate::xsd::node::Children<\'_, \'_, \'_>) -> u32 {\n    children.has("attribute") as u32\n}\n\npub fn parse<'),
      (I + 'xsd/node.rs', '    pub fn try_remove(\n', '    pub fn has(&self, name: &str) -> bool {\n        self.children.iter().any(|child| child.tag_name().name() == name)\n    }\n\n    pub fn try_remove(\n')],
     'an extension by an optional sequence and an attribute', 'the optional sequence of the extension becomes required: valid documents are rejected',
     MOD + '''fn main() {
    s::R::from_xml("<r y='1'><a>1</a></r>").unwrap();
    s::R::from_xml("<r y='1'><a>1</a><b>2</b></r>").unwrap();
}
''', s_xsd=x('<xs:element name="r" type="D"/><xs:complexType name="B"><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence></xs:complexType><xs:complexType name="D"><xs:complexContent><xs:extension base="B"><xs:sequence minOccurs="0"><xs:element name="b" type="xs:int"/></xs:sequence><xs:attribute name="y" type="xs:int"/></xs:extension></xs:complexContent></xs:complexType>'))
seed('unsigned-narrow', 'C22', [(I + 'xsd/context.rs', '"nonNegativeInteger" => LiteralType::Uint64,', '"nonNegativeInteger" => LiteralType::Int64,')],
     'an xs:nonNegativeInteger above 9223372036854775807, or a negative one', 'large values are rejected and negative ones accepted',
     MOD + '''fn main() {
    s::R::from_xml("<r>18446744073709551615</r>").unwrap();
    assert!(s::R::from_xml("<r>-1</r>").is_err());
}
''', s_xsd=x('<xs:element name="r" type="xs:nonNegativeInteger"/>'))
seed('fixed-trim', 'C11', [(I + 'ast/leaf_content.rs', '                        let val = node.text()?;\n                        if val != #fixed {', '                        let val = node.text()?;\n                        if val.trim_end_matches(|c: char| !c.is_alphanumeric()) != #fixed {')],
     'an element with a fixed value, in the document followed by punctuation', 'a value other than the fixed one is accepted',
     MOD + '''fn main() {
    s::R::from_xml("<r><f>v1</f></r>").unwrap();
    assert!(s::R::from_xml("<r><f>v1?</f></r>").is_err());
}
''', s_xsd=x('<xs:element name="r"><xs:complexType><xs:sequence><xs:element name="f" type="xs:string" fixed="v1"/></xs:sequence></xs:complexType></xs:element>'))
seed('max-unwrap', 'C13', [(I + 'xsd/parse/element.rs', '''                Ok(MaxOccurs::Number(u32::from_str(&val).map_err(|err| {
                    XsdError::ParseInt {
                        err,
                        range: attr.range(),
                    }
                })?))''', '''                let digits = val.bytes().filter(u8::is_ascii_digit).count();
                let number = u32::from_str(&val).map_err(|err| XsdError::ParseInt {
                    err,
                    range: attr.range(),
                });
                if digits == val.len() && digits > 0 {
                    return Ok(MaxOccurs::Number(number.unwrap()));
                }
                Ok(MaxOccurs::Number(number?))''')],
     'a schema with a maxOccurs that does not fit into 32 bits', 'the compiler panics instead of reporting an error',
     COMP + '''fn main() {
    assert!(compile(&xsd("<xs:complexType name='T'><xs:sequence><xs:element name='a' type='xs:int' maxOccurs='4294967296'/></xs:sequence></xs:complexType>")).is_err());
}
''')
seed('leftovers', 'C14', [(I + 'xsd/parse/complex_type.rs', '            attributes.push(attr);\n        }\n    }\n\n    children.prevent_unvisited_children()?;', '            attributes.push(attr);\n        }\n    }\n\n    if attributes.is_empty() {\n        children.prevent_unvisited_children()?;\n    }')],
     'a complex type with an attribute and a construct that is not supported, e.g. xs:anyAttribute or xs:attributeGroup', 'the construct is ignored: attributes the schema declares are silently dropped',
     COMP + '''fn main() {
    assert!(compile(&xsd("<xs:complexType name='T'><xs:attribute name='a' type='xs:int'/><xs:attributeGroup ref='G'/></xs:complexType>")).is_err());
}
''')
seed('variant-case', 'C18', [(I + 'ast/root.rs', '''                            quote! {
                                if let Some(node) = node.next_child(#name_xml, #namespace_xml) {
                                    Self::#variant_name(#inner)''', '''                            let name_xml = name_xml.trim_end_matches('_');
                            quote! {
                                if let Some(node) = node.next_child(#name_xml, #namespace_xml) {
                                    Self::#variant_name(#inner)''')],
     'a choice alternative whose name ends with an underscore', 'the alternative is not recognised',
     MOD + '''fn main() {
    s::R::from_xml("<r><a>1</a></r>").unwrap();
    s::R::from_xml("<r><type_>1</type_></r>").unwrap();
}
''', s_xsd=x('<xs:element name="r"><xs:complexType><xs:choice><xs:element name="a" type="xs:int"/><xs:element name="type_" type="xs:int"/></xs:choice></xs:complexType></xs:element>'))
seed('docs-lines', 'C25', [(I + 'xsd/parse/annotation.rs', 'docs.split_whitespace().collect::<Vec<&str>>().join(" ")', 'docs.split([\'\\n\', \'\\t\'])\n        .filter(|s| !s.is_empty())\n        .collect::<Vec<&str>>()\n        .join(" ")')],
     'documentation that is indented with blanks, or has several in a row', 'white space in documentation is not collapsed',
     COMP + '''fn main() {
    let c = compile(&xsd("<xs:element name='a' type='xs:int'><xs:annotation><xs:documentation>x\\n    y</xs:documentation></xs:annotation></xs:element>")).unwrap();
    assert!(c.contains("\\"x y\\""), "{c}");
}
''')
seed('parse-error-value', 'C16', [(I + 'ast/literal_type.rs', '                    type_: #type_.to_string(),\n                    value: val.to_string(),', '                    type_: #type_.to_string(),\n                    value: val.chars().take(8).collect(),')],
     'a number that is not one and longer than eight characters', 'the error names a value that is not in the document',
     MOD + '''fn main() {
    let e = s::R::from_xml("<r>123456789x</r>").unwrap_err();
    assert!(e.to_string().contains("123456789x"), "{e}");
}
''', s_xsd=x('<xs:element name="r" type="xs:int"/>'))
seed('choice-lookahead', 'C05', [(I + 'ast/root.rs', '''                let checks = variants.iter().map(|variant| {
                    if variant.is_virtual {''', '''                let checks = variants.iter().filter(|v| !v.is_optional()).map(|variant| {
                    if variant.is_virtual {''')],
     'an optional or repeated choice with an alternative that has minOccurs="0"', 'the alternative is not noticed: its element is dropped from the decoded value',
     MOD + '''fn main() {
    let v = s::R::from_xml("<r><a>1</a><b>2</b></r>").unwrap();
    assert!(format!("{v:?}").contains('2'), "{v:?}");
}
''', s_xsd=x('<xs:element name="r"><xs:complexType><xs:sequence><xs:element name="a" type="xs:int"/><xs:choice minOccurs="0"><xs:element name="b" type="xs:int" minOccurs="0"/><xs:element name="c" type="xs:int"/></xs:choice></xs:sequence></xs:complexType></xs:element>'))
seed('empty-attr', 'C04', [('xsd/src/lib.rs', '            Context::Context(inner) => inner.attributes.push((name.into(), value.into())),', '            Context::Context(inner) => {\n                let value = value.into();\n                if !value.is_empty() {\n                    inner.attributes.push((name.into(), value))\n                }\n            }')],
     'an attribute with an empty value', 'the attribute is not written', MOD + '''fn main() {
    let v = s::R::from_xml("<r x=''/>").unwrap();
    let out = String::from_utf8(v.to_xml().unwrap()).unwrap();
    assert!(out.contains("x=\\"\\""), "{out}");
}
''', s_xsd=x('<xs:element name="r"><xs:complexType><xs:attribute name="x" type="xs:string"/></xs:complexType></xs:element>'))
seed('order-of-types', 'C24', [(I + 'xsd/parse/element.rs', '''            LeafContent::Named(name) => ctx.discover_type(name, Some(parent)),
            content @ LeafContent::Literal(_) => {
                if let Some(attr) = node.attribute("fixed") {
                    *content = LeafContent::Fixed(attr.value().to_string());
                }
            }
            _ => {}
        }

        node.prevent_unvisited_attributes()?;
        children.prevent_unvisited_children()?;

        Ok(Leaf {''', '''            LeafContent::Named(name) => {
                ctx.discover_type(name, Some(parent));
                // a plain simple type does not need the indirection
                if let Some(literal) = ctx.get_literal(name) {
                    if max_occurs.is_vec() {
                        content = LeafContent::Literal(literal);
                    }
                }
            }
            content @ LeafContent::Literal(_) => {
                if let Some(attr) = node.attribute("fixed") {
                    *content = LeafContent::Fixed(attr.value().to_string());
                }
            }
            _ => {}
        }

        node.prevent_unvisited_attributes()?;
        children.prevent_unvisited_children()?;

        Ok(Leaf {'''),
      (I + 'xsd/context.rs', '    pub fn into_schema(self)', '''    pub fn get_literal(&self, name: &Name) -> Option<LiteralType> {
        match self.roots.get(name) {
            Some(Root::Leaf(LeafDefinition {
                content: LeafContent::Literal(literal),
                restrictions,
                ..
            })) if !restrictions.is_empty() => Some(literal.clone()).map(|_| LiteralType::String),
            _ => None,
        }
    }

    pub fn into_schema(self)''')],
     'a repeated element of a restricted named simple type that is declared before it is used', 'the type of the field depends on the order of the declarations',
     COMP + '''fn main() {
    let (a, b) = ("<xs:simpleType name='S'><xs:restriction base='xs:int'><xs:minInclusive value='1'/></xs:restriction></xs:simpleType>",
        "<xs:complexType name='T'><xs:sequence><xs:element name='a' type='S' maxOccurs='unbounded'/></xs:sequence></xs:complexType>");
    assert_eq!(compile(&xsd(&format!("{a}{b}"))).unwrap().contains("Vec < i32 >"), compile(&xsd(&format!("{b}{a}"))).unwrap().contains("Vec < i32 >"));
}
''')
seed('include-parent', 'C08', [(I + 'xsd/schema.rs', 'path.push(location);', 'path.push(location.trim_start_matches("../"));')],
     'a schema in a subdirectory that includes one from the directory above, while a file of that name exists next to it', 'declarations of the wrong file are used',
     COMP + '''fn main() {
    std::fs::create_dir_all("sub").unwrap();
    std::fs::write("o.xsd", xsd("<xs:simpleType name='S'><xs:restriction base='xs:int'/></xs:simpleType>")).unwrap();
    std::fs::write("sub/s.xsd", xsd("<xs:include schemaLocation='../o.xsd'/>")).unwrap();
    let c = Schema::parse_file("sub/s.xsd").unwrap().generate_all().unwrap().to_string();
    assert!(c.contains("struct S"), "{c}");
}
''')
