//! Written by tools/mkgrid.py: a schema as a list of declarations; each is also a file of schemas/split.
#[rustfmt::skip]
pub static SPLIT: &[(&str, &str, &[&str])] = &[
    ("q", r#" targetNamespace="urn:t" elementFormDefault="qualified" xmlns:t="urn:t""#, &[r#"<xs:element name="r" type="t:Kind"/>"#, r#"<xs:complexType name="Kind"><xs:sequence><xs:element name="ax" type="t:Word"/><xs:element ref="t:by" minOccurs="0"/><xs:element name="cz" type="t:Sub" minOccurs="0" maxOccurs="unbounded"/></xs:sequence><xs:attribute name="dw" type="t:Pick"/></xs:complexType>"#, r#"<xs:simpleType name="Word"><xs:restriction base="xs:int"/></xs:simpleType>"#, r#"<xs:element name="by" type="t:Sub"/>"#, r#"<xs:complexType name="Sub"><xs:complexContent><xs:extension base="t:Low"><xs:sequence><xs:element name="ev" type="xs:string"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#, r#"<xs:complexType name="Low"><xs:sequence><xs:choice minOccurs="0"><xs:element name="fu" type="t:Pick"/><xs:element name="gt" type="xs:int"/></xs:choice></xs:sequence></xs:complexType>"#, r#"<xs:simpleType name="Pick"><xs:restriction base="xs:string"><xs:enumeration value="ay"/><xs:enumeration value="bz"/></xs:restriction></xs:simpleType>"#]),
    ("u", r#" targetNamespace="urn:t" xmlns:t="urn:t""#, &[r#"<xs:element name="r" type="t:Kind"/>"#, r#"<xs:complexType name="Kind"><xs:sequence><xs:element name="ax" type="t:Word"/><xs:element ref="t:by" minOccurs="0"/><xs:element name="cz" type="t:Sub" minOccurs="0" maxOccurs="unbounded"/></xs:sequence><xs:attribute name="dw" type="t:Pick"/></xs:complexType>"#, r#"<xs:simpleType name="Word"><xs:restriction base="xs:int"/></xs:simpleType>"#, r#"<xs:element name="by" type="t:Sub"/>"#, r#"<xs:complexType name="Sub"><xs:complexContent><xs:extension base="t:Low"><xs:sequence><xs:element name="ev" type="xs:string"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#, r#"<xs:complexType name="Low"><xs:sequence><xs:choice minOccurs="0"><xs:element name="fu" type="t:Pick"/><xs:element name="gt" type="xs:int"/></xs:choice></xs:sequence></xs:complexType>"#, r#"<xs:simpleType name="Pick"><xs:restriction base="xs:string"><xs:enumeration value="ay"/><xs:enumeration value="bz"/></xs:restriction></xs:simpleType>"#]),
    ("n", r#""#, &[r#"<xs:element name="r" type="Kind"/>"#, r#"<xs:complexType name="Kind"><xs:sequence><xs:element name="ax" type="Word"/><xs:element ref="by" minOccurs="0"/><xs:element name="cz" type="Sub" minOccurs="0" maxOccurs="unbounded"/></xs:sequence><xs:attribute name="dw" type="Pick"/></xs:complexType>"#, r#"<xs:simpleType name="Word"><xs:restriction base="xs:int"/></xs:simpleType>"#, r#"<xs:element name="by" type="Sub"/>"#, r#"<xs:complexType name="Sub"><xs:complexContent><xs:extension base="Low"><xs:sequence><xs:element name="ev" type="xs:string"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#, r#"<xs:complexType name="Low"><xs:sequence><xs:choice minOccurs="0"><xs:element name="fu" type="Pick"/><xs:element name="gt" type="xs:int"/></xs:choice></xs:sequence></xs:complexType>"#, r#"<xs:simpleType name="Pick"><xs:restriction base="xs:string"><xs:enumeration value="ay"/><xs:enumeration value="bz"/></xs:restriction></xs:simpleType>"#]),
];
