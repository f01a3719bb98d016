"""A tiny self-contained filing (no remote references) for the demonstrations."""
import atexit, os, shutil, sys, tempfile
WORK = tempfile.mkdtemp(prefix="brelmini")
atexit.register(shutil.rmtree, WORK, True)
os.environ["HOME"] = os.path.join(WORK, "home")
os.makedirs(os.environ["HOME"])
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True

NS = ('xmlns="http://www.xbrl.org/2003/instance" xmlns:xbrli="http://www.xbrl.org/2003/instance" '
      'xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" '
      'xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" '
      'xmlns:iso4217="http://www.xbrl.org/2003/iso4217" xmlns:t="http://t.example/t" '
      'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"')

ROLE = "http://t.example/role/R1"

XSD = f'''<?xml version="1.0" encoding="UTF-8"?>
<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="http://t.example/t" {NS}>
<xs:annotation><xs:appinfo>
<link:roleType roleURI="{ROLE}" id="R1"><link:definition>Role one</link:definition><link:usedOn>link:presentationLink</link:usedOn><link:usedOn>link:calculationLink</link:usedOn><link:usedOn>link:definitionLink</link:usedOn></link:roleType>
@ROLES@
@LINKBASES@
</xs:appinfo></xs:annotation>
<xs:element name="Abs" id="t_Abs" abstract="true" nillable="true" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>
<xs:element name="Items" id="t_Items" abstract="true" nillable="true" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>
<xs:element name="Cube" id="t_Cube" abstract="true" nillable="true" type="xbrli:stringItemType" substitutionGroup="xbrldt:hypercubeItem" xbrli:periodType="duration"/>
<xs:element name="Dim" id="t_Dim" abstract="true" nillable="true" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" xbrli:periodType="duration"/>
<xs:element name="Mem" id="t_Mem" abstract="true" nillable="true" type="t:domainItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>
<xs:element name="Mem2" id="t_Mem2" abstract="true" nillable="true" type="t:domainItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>
<xs:element name="TDim" id="t_TDim" abstract="true" nillable="true" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" xbrldt:typedDomainRef="#t_TDom" xbrli:periodType="duration"/>
<xs:element name="TDom" id="t_TDom" type="xs:string"/>
<xs:element name="A" id="t_A" nillable="true" type="xbrli:monetaryItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant" xbrli:balance="debit"/>
<xs:element name="B" id="t_B" nillable="true" type="xbrli:monetaryItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant" xbrli:balance="debit"/>
<xs:element name="C" id="t_C" nillable="true" type="xbrli:monetaryItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant" xbrli:balance="debit"/>
<xs:element name="N" id="t_N" nillable="false" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>
@ELEMENTS@
</xs:schema>'''


def loc(name, label=None, ns="t"):
    return f'<link:loc xlink:type="locator" xlink:href="t.xsd#t_{name}" xlink:label="{label or name}"/>'


def arc(kind, role, f, t, **kw):
    extra = " ".join(f'{k}="{v}"' for k, v in kw.items())
    return f'<link:{kind} xlink:type="arc" xlink:arcrole="{role}" xlink:from="{f}" xlink:to="{t}" {extra}/>'


PC = "http://www.xbrl.org/2003/arcrole/parent-child"
SUM = "http://www.xbrl.org/2003/arcrole/summation-item"
CL = "http://www.xbrl.org/2003/arcrole/concept-label"
CR = "http://www.xbrl.org/2003/arcrole/concept-reference"
DIM = "http://xbrl.org/int/dim/arcrole/"

PRE = f'''<link:presentationLink xlink:type="extended" xlink:role="{ROLE}">
{loc("Abs")}{loc("A")}{loc("B")}{loc("C")}
{arc("presentationArc", PC, "Abs", "B", order="2", preferredLabel="http://www.xbrl.org/2003/role/terseLabel")}
{arc("presentationArc", PC, "Abs", "C", order="3")}
{arc("presentationArc", PC, "Abs", "A", order="1")}
</link:presentationLink>'''
CAL = f'''<link:calculationLink xlink:type="extended" xlink:role="{ROLE}">
{loc("A")}{loc("B")}{loc("C")}
{arc("calculationArc", SUM, "A", "B", order="2", weight="1")}
{arc("calculationArc", SUM, "A", "C", order="1", weight="-1")}
</link:calculationLink>'''
DEF = f'''<link:definitionLink xlink:type="extended" xlink:role="{ROLE}">
{loc("Items")}{loc("A")}{loc("Cube")}{loc("Dim")}{loc("Mem")}{loc("Mem2")}
{arc("definitionArc", DIM + "domain-member", "Items", "A", order="1")}
{arc("definitionArc", DIM + "all", "Items", "Cube", order="2")}
{arc("definitionArc", DIM + "hypercube-dimension", "Cube", "Dim", order="1")}
{arc("definitionArc", DIM + "dimension-domain", "Dim", "Mem", order="1")}
{arc("definitionArc", DIM + "domain-member", "Mem", "Mem2", order="1")}
</link:definitionLink>'''
STD = "http://www.xbrl.org/2003/role/link"


def label(lab, text, role="http://www.xbrl.org/2003/role/label", lang="en"):
    return f'<link:label xlink:type="resource" xlink:label="{lab}" xlink:role="{role}" xml:lang="{lang}">{text}</link:label>'


LAB = f'''<link:labelLink xlink:type="extended" xlink:role="{STD}">
{loc("A")}{loc("B")}
{label("lA", "Label A")}{label("lAd", "Etikett A", lang="de")}{label("lB", "Label B")}{label("lBt", "B terse", "http://www.xbrl.org/2003/role/terseLabel")}
{arc("labelArc", CL, "A", "lA")}{arc("labelArc", CL, "A", "lAd")}{arc("labelArc", CL, "B", "lB")}{arc("labelArc", CL, "B", "lBt")}
</link:labelLink>'''
REF = f'''<link:referenceLink xlink:type="extended" xlink:role="{STD}">
{loc("A")}
<link:reference xlink:type="resource" xlink:label="rA" xlink:role="http://www.xbrl.org/2003/role/reference"><t:Name>Book</t:Name><t:Number>7</t:Number></link:reference>
{arc("referenceArc", CR, "A", "rA")}
</link:referenceLink>'''


def context(cid, period='<instant>2023-12-31</instant>', segment="", entity="E1", scheme="http://s.example", scenario=""):
    return (f'<context id="{cid}"><entity><identifier scheme="{scheme}">{entity}</identifier>'
            + (f"<segment>{segment}</segment>" if segment else "") + f'</entity><period>{period}</period>'
            + (f"<scenario>{scenario}</scenario>" if scenario else "") + '</context>')


DUR = "<startDate>2023-01-01</startDate><endDate>2023-12-31</endDate>"
USD = '<unit id="usd"><measure>iso4217:USD</measure></unit>'
BODY = (context("c1") + context("c2", DUR) +
        context("c3", segment='<xbrldi:explicitMember dimension="t:Dim">t:Mem</xbrldi:explicitMember>') + USD +
        '<t:A contextRef="c1" unitRef="usd" decimals="0" id="f1">3</t:A>'
        '<t:B contextRef="c1" unitRef="usd" decimals="0" id="f2">4</t:B>'
        '<t:C contextRef="c1" unitRef="usd" decimals="0" id="f3">1</t:C>'
        '<t:N contextRef="c2" id="f4">hello</t:N>'
        '<t:A contextRef="c3" unitRef="usd" decimals="0" id="f5">2</t:A>')


def write(body=BODY, links=(PRE, CAL, DEF, LAB, REF), elements="", roles="", name="t", folder=None, xsd=None, ref="t.xsd"):
    """-> path of the instance"""
    d = folder or tempfile.mkdtemp(dir=WORK)
    os.makedirs(d, exist_ok=True)
    s = (xsd or XSD).replace("@ELEMENTS@", elements).replace("@ROLES@", roles).replace("@LINKBASES@", "")
    open(os.path.join(d, "t.xsd"), "w").write(s)
    lb = ""
    if links:
        open(os.path.join(d, "t_lb.xml"), "w").write(f'<?xml version="1.0" encoding="UTF-8"?>\n<link:linkbase {NS}>' + "\n".join(links) + "</link:linkbase>")
        lb = '<link:linkbaseRef xlink:type="simple" xlink:href="t_lb.xml"/>'
    p = os.path.join(d, name + ".xml")
    open(p, "w").write(f'<?xml version="1.0" encoding="UTF-8"?>\n<xbrl {NS}><link:schemaRef xlink:type="simple" xlink:href="{ref}"/>{lb}{body}</xbrl>')
    return p


def open_filing(*a, **k):
    from brel import Filing
    return Filing.open(write(*a, **k))


IXNS = ('xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" '
        'xmlns:ixt="http://www.xbrl.org/inlineXBRL/transformation/2020-02-12" ' + NS.split(" ", 1)[1])


def write_inline(body, contexts="", links=(PRE, CAL, DEF, LAB, REF), name="doc", resources=""):
    """-> path of an inline document; contexts are given without prefix"""
    p = write(body="", links=links)
    d = os.path.dirname(p)
    os.remove(p)
    import re
    contexts = re.sub(r"<(/?)(context|entity|identifier|segment|scenario|period|instant|startDate|endDate|unit|measure|divide|unitNumerator|unitDenominator)\b", r"<\1xbrli:\2", contexts)
    lb = '<link:linkbaseRef xlink:type="simple" xlink:href="t_lb.xml"/>' if links else ""
    q = os.path.join(d, name + ".xhtml")
    open(q, "w").write(f'<?xml version="1.0" encoding="UTF-8"?>\n<html {IXNS}><head><title>t</title></head><body><div style="display:none"><ix:header><ix:references>'
                       f'<link:schemaRef xlink:type="simple" xlink:href="t.xsd"/>{lb}</ix:references><ix:resources>{contexts}{resources}</ix:resources></ix:header></div>{body}</body></html>')
    return q


def open_inline(*a, **k):
    from brel import Filing
    return Filing.open(write_inline(*a, **k))


def clear_cache():
    shutil.rmtree(os.path.join(os.environ["HOME"], ".brel"), True)


if __name__ == "__main__":
    f = open_filing()
    print(f.get_errors())
    for x in f.get_all_facts():
        print(x)
    for c in f.get_all_components():
        print(c, c.get_presentation_network(), c.get_calculation_network(), c.get_definition_network())
    for n in f.get_all_physical_networks():
        print(type(n).__name__, [(x.get_order(), str(x.points_to()) ) for x in n.get_all_nodes()])
    a = f.get_concept_by_name("t:A")
    print(a, [str(l) for l in a.get_labels()])
