BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("network-role-prefix", "C02",
    [("brel/data/network/in_memory_network_repository.py", "            if network.get_link_role() == linkrole\n", "            if network.get_link_role().startswith(linkrole)\n")],
    "two link roles of which one is a prefix of the other",
    "looking up the networks of a role also returns those of a longer role",
    '''
R2 = ROLE + "Details"
roles = f'<link:roleType roleURI="{R2}" id="R2"><link:definition>Two</link:definition><link:usedOn>link:presentationLink</link:usedOn></link:roleType>'
f = open_filing(links=(PRE.replace(ROLE, R2),), roles=roles)
a = f.get_component(ROLE).get_presentation_network()
b = f.get_component(R2).get_presentation_network()
assert b is not None and b.get_link_role() == R2
assert a is None, a.get_link_role()
''')

bug("error-severity-filter", "C02",
    [("brel/data/errors/error_repository.py", "error.get_severity() == severity", "error.get_severity().value <= severity.value")],
    "a filing with errors of several severities",
    "listing by severity returns items stored under another severity",
    '''
from brel.errors.severity import Severity
from brel.data.errors.in_memory_error_repository import InMemoryErrorRepository
from brel.errors.error_code import ErrorCode
f = open_filing(body=BODY.replace('unitRef="usd" decimals="0" id="f1"', 'unitRef="nope" decimals="0" id="f1"'))
n = sum(len(f.get_errors_by_severity(s)) for s in Severity)
assert len(f.get_all_errors()) >= 1
assert n == len(f.get_all_errors()), (n, len(f.get_all_errors()))
''')

bug("order-as-int", "C12",
    [("brel/networks/presentation_network_node.py", "self.__children.sort(key=lambda node: node.get_order())", "self.__children.sort(key=lambda node: int(node.get_order()))")],
    "sibling arcs whose orders differ only after the decimal point, read in descending order",
    "children with fractional orders stay in reading order",
    '''
pre = PRE.replace('order="2"', 'order="1.7"').replace('order="3"', 'order="1.9"').replace('order="1" ', 'order="1.2" ')
import random
from brel.networks import PresentationNetworkNode
from brel.qnames.qname import QName
f = open_filing()
el = f.get_report_element_by_name("t:Abs")
q = QName("http://t.example/t", "t", "x")
mk = lambda o: PresentationNetworkNode(el, [], "r", q, "l", q, None, o)
root = mk(1)
for o in (1.9, 1.2, 1.7, 1.1):
    root._add_child(mk(o))
assert [c.get_order() for c in root.get_children()] == [1.1, 1.2, 1.7, 1.9], [c.get_order() for c in root.get_children()]
''')

bug("languages-accumulate", "C14",
    [("brel/brel_filing.py", '''        all_languages = (
            function_languages
            + preferred_filing_languages
            + library_languages
            + sys_language_list
            + available_filing_languages
        )
''', '''        all_languages = preferred_filing_languages
        all_languages[:0] = function_languages
        all_languages.extend(library_languages)
        all_languages.extend(sys_language_list)
        all_languages.extend(available_filing_languages)
''')],
    "a filing with its own language list that is exported twice, once with an explicit language",
    "an export changes the filing's own language list, so that later exports answer differently",
    '''
f = open_filing()
f.set_filing_output_params(languages=["de"])
a = f.get_preferred_languages(None, False, False, False)
f.get_preferred_languages(["fr"], False, False, False)
b = f.get_preferred_languages(None, False, False, False)
assert a == b == ["de"], (a, b)
''')

bug("locale-default-language", "C17",
    [("brel/brel_filing.py", '''            kwargs.get("match_locale"), "match_locale"
''', '''            kwargs.get("match_locale"), "allow_mixed"
''')],
    "match_locale not given for the call, while the settings for match_locale and allow_mixed differ",
    "without an explicit value the match_locale option follows the setting of another option",
    '''
from brel.config.brel_config import BrelConfig
f = open_filing()
f.set_filing_output_params(match_locale=False)
got = []
from brel.services.translation.translation_service import TranslationService
orig = TranslationService.set_match_locale
TranslationService.set_match_locale = lambda self, v: (got.append(v), orig(self, v))[1]
try:
    f.generate_fact_table_pandas_df(languages=[""])
except Exception:
    pass
assert got and got[0] is False, got
''')


bug("message-placeholder", "C03",
    [("brel/errors/error_factory_registry.py", "The referenced schema element with ID '{ref_id}' could not be found in the schema with name {ref_schema_name}.", "The referenced schema element with ID '{ref_id}' could not be found in the schema with name {schema_name}.")],
    "a typed dimension whose domain reference points to an element that does not exist",
    "reporting the problem raises KeyError instead of recording it",
    """
f = open_filing(xsd=XSD.replace("#t_TDom", "#t_Nope"))
assert any("t_Nope" in str(e.get_message()) for e in f.get_all_errors()), [e.get_message() for e in f.get_all_errors()]
""")

bug("label-language-code", "C03",
    [("brel/errors/error_factory_registry.py", "    ErrorCode.MISSING_LABEL_LANGUAGE: lambda", "    ErrorCode.XML_MISSING_FOOTNOTE_LANGUAGE: lambda")],
    "a label without any language",
    "a label without a language makes opening the filing fail instead of being reported",
    """
f = open_filing(links=(PRE, LAB.replace(' xml:lang="de"', '')))
assert f.has_any_errors()
""")

TWO = """
from brel import Filing
a = write(folder=os.path.join(WORK, "one"), name="a")
b = write(folder=os.path.join(WORK, "two"), name="b", body=context("c9", DUR, entity="E9") + '<t:N contextRef="c9" id="g1">other</t:N>')
"""

bug("lazy-cache-on-class", "C15",
    [("brel/contexts/filing_context.py", '''    def __init__(self) -> None:
        self.__cache: Dict[str, Any] = {}
''', '''    __cache: Dict[str, Any] = {}
''')],
    "a second filing opened in the same process",
    "all filings share their stores",
    TWO + '''
f = Filing.open(a)
n = len(f.get_all_facts())
g = Filing.open(b)
assert len(f.get_all_facts()) == n, (n, len(f.get_all_facts()))
assert [x.get_id() for x in g.get_all_facts()] == ["g1"]
''')

bug("shared-characteristics", "C15",
    [("brel/data/factory.py", '''def create_characteristic_repository() -> CharacteristicRepository:
    return InMemoryCharacteristicRepository()
''', '''_characteristic_repository = InMemoryCharacteristicRepository()


def create_characteristic_repository() -> CharacteristicRepository:
    return _characteristic_repository
''')],
    "an inline document whose fact names a unit it does not define, opened after a filing that defines a unit of that id",
    "the second filing reports a unit it does not define, taken from the first filing, and no error",
    '''
USD = "<unit id='usd'><measure>iso4217:USD</measure></unit>"
FACT = '<p><ix:nonFraction name="t:A" contextRef="c1" unitRef="usd" decimals="2" id="f1">5</ix:nonFraction></p>'
f = open_inline(FACT, context("c1") + USD)
assert not f.get_errors(), f.get_errors()
g = open_inline(FACT, context("c1"), name="second")
assert g.get_errors()
assert all(x.get_unit() is None for x in g.get_all_facts())
''')

bug("elements-by-id-on-class", "C15",
    [("brel/data/report_element/in_memory_report_element_repository.py", '''    def __init__(self) -> None:
        self.__elements_by_qname: dict[QName, IReportElement] = {}
        self.__elements_by_id: dict[str, IReportElement] = {}
''', '''    __elements_by_id: dict[str, IReportElement] = {}

    def __init__(self) -> None:
        self.__elements_by_qname: dict[QName, IReportElement] = {}
''')],
    "a second filing whose links name an id only the first filing defines",
    "locators of one filing are resolved to report elements of another",
    TWO + '''
f = Filing.open(a)
x = XSD.replace('<xs:element name="C" id="t_C"', '<xs:element name="C" id="t_Cother"')
clear_cache()
g = Filing.open(write(folder=os.path.join(WORK, "three"), name="c", xsd=x))
assert g.has_any_errors()
''')

bug("filing-option-global", "C15",
    [("brel/brel_filing.py", """        preferred_filing_languages = self.__output_params.get("languages") or []
""", """        preferred_filing_languages = self.__output_params.get("languages") or BrelConfig.output_params.get("languages") or []
"""),
     ("brel/brel_filing.py", """            all_languages.append("")

        existing_language_set""", """            all_languages.append("")
            preferred_filing_languages += [""]

        existing_language_set""")],
    "library-wide languages are set and a filing without languages of its own is exported",
    "an export of one filing changes the library-wide language list that every other filing uses",
    """
from brel import Filing
from brel.config.brel_config import BrelConfig
f = open_filing()
Filing.set_global_output_params(languages=["de"])
f.get_preferred_languages(None, False, False, True)
assert BrelConfig.output_params["languages"] == ["de"], BrelConfig.output_params["languages"]
""")

SEEDS = '''
import subprocess
def under_seeds(code, n=12):
    """outputs of code (run after 'from mini import *') in processes with different hash seeds"""
    out = set()
    src = "import sys; sys.path.insert(0, %r)\\nfrom mini import *\\n" % os.path.dirname(os.path.abspath(__file__)) + code
    for s in range(1, n):
        r = subprocess.run([sys.executable, "-c", src], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True)
        assert r.returncode == 0, r.stderr[-800:]
        out.add(r.stdout)
    return out
'''

bug("languages-from-set", "C01",
    [("brel/brel_filing.py", "        return all_languages_deduplicated\n", "        return list(existing_language_set)\n")],
    "several preferred languages and another hash seed",
    "the order of the preferred languages comes from a set, so another label is chosen in another run",
    SEEDS + """
o = under_seeds('''
f = open_filing()
print(f.get_preferred_languages(["de", "en", "fr"], False, False, True))
''')
assert len(o) == 1, o
""")

bug("uris-deduplicated-by-set", "C01",
    [("brel/brel_filing.py", "        return [component.get_URI() for component in self.get_all_components()]", "        return list({component.get_URI() for component in self.get_all_components()})")],
    "a filing with several components, another process",
    "component addresses are listed in hash order",
    SEEDS + """
o = under_seeds('''
R = [ROLE + x for x in ("One", "Two", "Three", "Four")]
roles = "".join(f'<link:roleType roleURI="{r}" id="{r[-4:]}"><link:definition>Two</link:definition><link:usedOn>link:presentationLink</link:usedOn></link:roleType>' for r in R)
f = open_filing(links=tuple(PRE.replace(ROLE, r) for r in R), roles=roles)
print([u[-8:] for u in f.get_all_component_uris()])
''')
assert len(o) == 1, o
""")

bug("search-notation-order", "C23",
    [("brel/qnames/qname_search_params.py", """        if cls.is_clark_notation(qname_search_str):
            return cls.from_clark_notation(qname_search_str)
        elif cls.is_prefix_local_name_notation(qname_search_str):
            return cls.from_prefix_local_name_notation(qname_search_str)
""", """        if cls.is_prefix_local_name_notation(qname_search_str):
            return cls.from_prefix_local_name_notation(qname_search_str)
        elif cls.is_clark_notation(qname_search_str):
            return cls.from_clark_notation(qname_search_str)
""")],
    "a name asked for in expanded notation whose namespace contains exactly one colon",
    "the expanded name is taken for a prefixed one, so the element is not found",
    '''
f = open_filing()
a = f.get_concept_by_name("t:A")
b = f.get_concept_by_name("{http://t.example/t}A")
assert a is b
''')

bug("prefix-notation-loosened", "C23",
    [("brel/qnames/qname_utils.py", '''    expression = r"^([^\\:]+)\\:([^\\:]+)$"
    match = re.match(expression, namespace_localname_str)
''', '''    expression = r"^[^\\:]+\\:.+$"
    match = re.match(expression, namespace_localname_str)
''')],
    "a measure, member or format whose text has more than one colon",
    "the recogniser accepts what the reader of the same notation refuses, so the whole filing fails instead of reporting the item",
    '''
f = open_filing(body=BODY.replace("<measure>iso4217:USD</measure>", "<measure>iso4217:USD:x</measure>"))
assert f is not None
''')

bug("entity-equal-by-id", "C25",
    [("brel/characteristics/entity_characteristic.py", "        return self.get_value() == __other.get_value()", "        return self.__id == __other.__id")],
    "two entities with the same identifier from different schemes",
    "they compare equal",
    '''
from brel.characteristics.entity_characteristic import EntityCharacteristic
a, b = EntityCharacteristic("1", "http://a"), EntityCharacteristic("1", "http://b")
assert a != b
assert EntityCharacteristic("1", "http://a") == a
''')

bug("concept-balance-caption", "C26",
    [("brel/reportelements/concept.py", "            balance_type_literal: balance_type,", "            balance_type_literal: balance_type if self.__balance_type else period_type,")],
    "a concept without a balance, exported with translated captions",
    "its period type is exported as its balance",
    '''
class TS:
    def get(self, key, languages, *a):
        return key
    def get_from_labels(self, labels, languages, default):
        return default
f = open_filing()
n = f.get_concept_by_name("t:N")
d = n.convert_to_dict(["en"], TS())
assert d["literal:balance-type"] == "literal:none", d
assert f.get_concept_by_name("t:A").convert_to_dict(["en"], TS())["literal:balance-type"] == "balance-type:debit"
''')

bug("calculation-weight-sign", "C11",
    [("brel/parsers/XML/networks/xml_calculation_network_factory.py", 'weight = float(xml_arc.attrib.get("weight") or 0.0)', 'weight = abs(float(xml_arc.attrib.get("weight") or 0.0))')],
    "a calculation arc with a negative weight",
    "subtracted items are added",
    '''
f = open_filing()
n = f.get_component(ROLE).get_calculation_network()
assert sorted(c.get_weight() for r in n.get_roots() for c in r.get_children()) == [-1.0, 1.0]
''')

bug("reference-order-zero", "C11",
    [("brel/parsers/XML/networks/xml_reference_network_factory.py", 'order = float(xml_arc.attrib.get("order") or 1)', 'order = max(float(xml_arc.attrib.get("order") or 1), 1.0)')],
    "reference arcs with orders below one",
    "their orders are raised to one, so references lose their arrangement",
    '''
f = open_filing(links=(PRE, REF.replace('xlink:to="rA" ', 'xlink:to="rA" order="0.5"')))
n = [x for x in f.get_all_physical_networks() if type(x).__name__ == "ReferenceNetwork"][0]
assert [c.get_order() for r in n.get_roots() for c in r.get_children()] == [0.5], [c.get_order() for r in n.get_roots() for c in r.get_children()]
''')

bug("unit-leftover-measure", "C05",
    [("brel/parsers/XML/characteristics/xml_parse_unit.py", """                child_qname = parse_unit_measure_from_xml(measure_child, filing_context)

                if not child_qname:
                    return None
""", """                if "unitNumerator" in num_or_denom_tag or measure_child.text is None:
                    child_qname = parse_unit_measure_from_xml(
                        measure_child, filing_context
                    )

                if not child_qname:
                    return None
""")],
    "a unit with numerator and denominator",
    "the denominator takes over the measure read for the numerator",
    '''
U = '<unit id="eps"><divide><unitNumerator><measure>iso4217:USD</measure></unitNumerator><unitDenominator><measure>xbrli:shares</measure></unitDenominator></divide></unit>'
f = open_filing(body=BODY + U + '<t:A contextRef="c1" unitRef="eps" decimals="0" id="f8">2</t:A>')
x = [x for x in f.get_all_facts() if x.get_id() == "f8"][0]
u = x.get_unit()
assert [q.local_name for q in u.get_numerators()] == ["USD"] and [q.local_name for q in u.get_denominators()] == ["shares"], u
''')

bug("fact-characteristics-hoisted", "C05",
    [("brel/parsers/XHMTL/xhtml_parse_facts.py", """        characteristics: List[UnitCharacteristic | ConceptCharacteristic] = []

        concept_name = get_str""", """        concept_name = get_str"""),
     ("brel/parsers/XHMTL/xhtml_parse_facts.py", """    for fact_element in fact_elements:
        # the""", """    characteristics: List[UnitCharacteristic | ConceptCharacteristic] = []
    for fact_element in fact_elements:
        # the"""),
     ("brel/parsers/XHMTL/xhtml_parse_facts.py", """        for characteristic in characteristics:
            context._add_characteristic(characteristic)

        if""", """        while characteristics:
            context._add_characteristic(characteristics.pop())

        if""")],
    "an inline fact that is rejected before its characteristics are used, followed by another fact",
    "the characteristics gathered for the rejected fact end up in the next one",
    '''
INL = """<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" %s><head><title>x</title></head><body>
<div style="display:none"><ix:header><ix:references><link:schemaRef xlink:type="simple" xlink:href="t.xsd"/></ix:references><ix:resources>%s</ix:resources></ix:header></div>
<p><ix:nonFraction name="t:A" contextRef="nowhere" unitRef="usd" decimals="0" id="g0">1</ix:nonFraction></p>
<p><ix:nonNumeric name="t:N" contextRef="c2" id="g1">hello</ix:nonNumeric></p></body></html>"""
import re
p = write()
ctx = (context("c1") + context("c2", DUR) + USD).replace("<context", "<xbrli:context").replace("</context", "</xbrli:context").replace("<unit", "<xbrli:unit").replace("</unit", "</xbrli:unit")
for t in ("entity", "identifier", "period", "instant", "startDate", "endDate", "measure"):
    ctx = ctx.replace("<" + t, "<xbrli:" + t).replace("</" + t, "</xbrli:" + t)
ns = NS.replace('xmlns="http://www.xbrl.org/2003/instance" ', "")
q = p.replace(".xml", ".xhtml")
open(q, "w").write(INL % (ns, ctx))
from brel import Filing
f = Filing.open(q)
g = [x for x in f.get_all_facts() if x.get_id() == "g1"]
assert len(g) == 1, f.get_all_facts()
assert g[0].get_unit() is None, g[0].get_unit()
assert str(g[0].get_concept().get_name()) == "t:N", g[0]
''')

bug("unit-missing-continues", "C04",
    [("brel/parsers/XML/xml_facts_parser.py", """                        unit_id=unit_id,
                    )

                    continue

                if unit_id not in units:
                    new_unit = parse_unit_from_xml(context, unit_xml)
""", """                        unit_id=unit_id,
                    )

                if unit_id not in units:
                    new_unit = parse_unit_from_xml(context, unit_xml)
""")],
    "a fact that refers to a unit the document does not contain",
    "the missing unit is reported and then used, which fails the whole filing",
    '''
f = open_filing(body=BODY + '<t:A contextRef="c1" unitRef="nope" decimals="0" id="f8">2</t:A>')
assert len(f.get_all_errors()) >= 1
assert "f1" in [x.get_id() for x in f.get_all_facts()]
''')

bug("presentation-order-required", "C04",
    [("brel/parsers/XML/networks/xml_presentation_network_factory.py", 'float(get_str_attribute(xml_arc, "order", "1"))', 'float(get_str_attribute(xml_arc, "order"))')],
    "a presentation arc without an order",
    "an optional attribute that is left out fails the whole filing",
    '''
f = open_filing(links=(PRE.replace('order="3"', ""),))
n = f.get_component(ROLE).get_presentation_network()
assert sorted(c.get_order() for c in n.get_roots()[0].get_children()) == [1.0, 1.0, 2.0]
''')

bug("typed-member-case", "C08",
    [("brel/parsers/XML/characteristics/xml_parse_typed_dimension.py", 'dimension_id = f"{dimension_axis} {dimension_value}"', 'dimension_id = f"{dimension_axis} {dimension_value}".casefold()')],
    "two typed dimension values that differ only in upper and lower case",
    "the second value is taken for the first",
    '''
SEG = '<xbrldi:typedMember dimension="t:TDim"><t:TDom>%s</t:TDom></xbrldi:typedMember>'
f = open_filing(body=BODY + context("k1", segment=SEG % "ab") + context("k2", segment=SEG % "AB") +
                '<t:A contextRef="k1" unitRef="usd" decimals="0" id="g1">2</t:A><t:A contextRef="k2" unitRef="usd" decimals="0" id="g2">2</t:A>')
assert len(f.get_all_errors()) == 0, f.get_all_errors()
v = {x.get_id(): [str(c.get_value()) for c in [x.get_context().get_characteristic(a) for a in x.get_context().get_aspects()] if "Typed" in type(c).__name__] for x in f.get_all_facts()}
assert v["g1"] == ["ab"] and v["g2"] == ["AB"], v
''')

bug("duration-key-start-only", "C08",
    [("brel/parsers/XML/characteristics/xml_parse_period.py", 'period_id = f"period {start_date} {end_date}"', 'period_id = f"period {start_date} {end_date[:7]}"')],
    "two durations that start on the same day and end in the same month",
    "both are the period that was parsed first",
    '''
D = "<startDate>2023-01-01</startDate><endDate>2023-12-%s</endDate>"
f = open_filing(body=BODY + context("k1", D % "30") + context("k2", D % "31") + '<t:N contextRef="k1" id="g1">a</t:N><t:N contextRef="k2" id="g2">b</t:N>')
v = {x.get_id(): str(x.get_period()) for x in f.get_all_facts()}
assert v["g1"] != v["g2"], v
''')

bug("inline-precision-from-decimals", "C07",
    [("brel/parsers/XHMTL/elements/parse_non_fraction.py", '        precision = parse_decimals_or_precision(precision_str, False)\n',
      '        precision = parse_decimals_or_precision(precision_str or decimals_str, False)\n')],
    "an inline numeric fact that states decimals and no precision, with positive decimals",
    "the fact reports its decimals as its precision too",
    '''
f = open_inline('<p><ix:nonFraction name="t:A" contextRef="c1" unitRef="usd" decimals="2" id="f1">5</ix:nonFraction></p>', context("c1") + USD)
x = f.get_all_facts()[0]
assert x.get_decimals() == 2
assert x.get_precision() is None, x.get_precision()
''')

bug("inline-nil-namespace", "C07",
    [("brel/parsers/XHMTL/elements/parse_non_fraction.py", '    xsi_nil = get_str_attribute_optional(fact_element, "xsi:nil")\n',
      '    xsi_nil = get_str_attribute_optional(fact_element, "nil")\n')],
    "an inline numeric fact marked xsi:nil that nevertheless shows some text",
    "a nil fact gets the shown text as its value",
    '''
f = open_inline('<p><ix:nonFraction name="t:A" contextRef="c1" unitRef="usd" xsi:nil="true" id="f1">5</ix:nonFraction></p>', context("c1") + USD)
x = f.get_all_facts()[0]
assert str(x) == "", str(x)
''')

bug("continuation-left-out", "C07",
    [("brel/parsers/XHMTL/xhtml_parse_facts.py", 'continuation_chain = continuation_chains.get(fact_element) or []', 'continuation_chain = []')],
    "an inline text fact continued elsewhere",
    "the continuation of a text fact is left out of its value",
    '''
f = open_inline('<p><ix:nonNumeric name="t:N" contextRef="c2" id="f2" continuedAt="k1">abc</ix:nonNumeric> x <ix:continuation id="k1">def</ix:continuation></p>', context("c2", DUR))
assert str(f.get_all_facts()[0]) == "abcdef"
''')

bug("scenario-or-segment", "C09",
    [("brel/parsers/XML/xml_context_parser.py", """    segment = context_entity.find("{*}segment", namespaces=None)
""", """    segment = (
        context_entity.find("{*}segment", namespaces=None)
        if xml_element.find("{*}scenario", namespaces=None) is None
        else None
    )
""")],
    "a context that has dimensions in its segment as well as in its scenario",
    "the dimensions of the segment are left out of the context",
    '''
M = '<xbrldi:explicitMember dimension="t:Dim">t:Mem</xbrldi:explicitMember>'
T = '<xbrldi:typedMember dimension="t:TDim"><t:TDom>v</t:TDom></xbrldi:typedMember>'
f = open_filing(body=context("c1", segment=M, scenario=T) + USD + '<t:A contextRef="c1" unitRef="usd" decimals="0" id="f1">3</t:A>')
x = f.get_all_facts()[0]
names = {a.get_name() for a in x.get_aspects()}
assert "t:Dim" in names and "t:TDim" in names, names
''')

bug("context-aspect-by-identity", "C09",
    [("brel/brel_context.py", "        return any(aspect == context_aspect for context_aspect in self.__aspects)", "        return any(aspect is context_aspect for context_aspect in self.__aspects)")],
    "a fact of an inline document, whose context is a copy, asked with an aspect of another copy",
    "a context does not recognise an aspect it has",
    '''
f = open_inline('<p><ix:nonFraction name="t:A" contextRef="c1" unitRef="usd" decimals="2" id="f1">5</ix:nonFraction></p>', context("c1") + USD)
x = f.get_all_facts()[0]
from brel.characteristics import Aspect
for a in (Aspect.ENTITY, Aspect.PERIOD, Aspect.UNIT, Aspect.CONCEPT):
    assert x.get_context().has_characteristic(a), a
''')

bug("networks-combined-across-roles", "C10",
    [("brel/parsers/XML/networks/xml_networks_parser.py", "    for role, network_list in networks.items():\n        networks_by_type: dict[type, list[INetwork]] = defaultdict(list)\n",
      "    networks_by_type: dict[type, list[INetwork]] = defaultdict(list)\n    for role, network_list in networks.items():\n")],
    "a filing with presentation (or calculation) links in two roles",
    "the network of the second role is combined with the one of the first",
    '''
R2 = "http://t.example/role/R2"
roles = f'<link:roleType roleURI="{R2}" id="R2"><link:definition>Two</link:definition><link:usedOn>link:presentationLink</link:usedOn></link:roleType>'
P2 = f'<link:presentationLink xlink:type="extended" xlink:role="{R2}">{loc("Items")}{loc("N")}{arc("presentationArc", PC, "Items", "N", order="1")}</link:presentationLink>'
f = open_filing(links=(PRE, P2), roles=roles)
for role, n in ((ROLE, 4), (R2, 2)):
    net = f.get_component(role).get_presentation_network()
    assert net.get_link_role() == role
    assert len(net.get_all_nodes()) == n, (role, len(net.get_all_nodes()))
''')

bug("component-physical-definition", "C10",
    [("brel/parsers/XML/xml_component_parser.py", "if isinstance(network, DefinitionNetwork) and not network.is_physical()", "if isinstance(network, DefinitionNetwork)")],
    "a definition link with arcs of several arc roles",
    "a component offers a network of one arc role as its definition network",
    '''
n = open_filing().get_component(ROLE).get_definition_network()
assert not n.is_physical()
assert len(n.get_all_nodes()) == 6, len(n.get_all_nodes())
''')

bug("reference-links-not-read", "C10",
    [("brel/parsers/XML/networks/xml_extended_link_parser.py", 'elif "referenceLink" in get_clark_notation_tag', 'elif "referencesLink" in get_clark_notation_tag')],
    "a filing with a reference linkbase",
    "references are left out of the filing",
    '''
kinds = {type(n).__name__ for n in open_filing().get_all_physical_networks()}
assert "ReferenceNetwork" in kinds, kinds
''')

bug("measure-without-text-unreported", "C06",
    [("brel/parsers/XML/characteristics/xml_parse_unit.py", """    if child_text is None:
        error_repository.insert(ErrorCode.XML_MISSING_UNIT_MEASURE, xml_element)
        return None
    else:
        qname = qname_from_str(child_text, xml_element)
        return qname
""", """    if child_text:
        return qname_from_str(child_text, xml_element)
    return None
""")],
    "a fact whose unit has an empty measure",
    "the fact disappears and nothing is reported",
    '''
f = open_filing(context("c1") + "<unit id='u0'><measure/></unit>" + '<t:A contextRef="c1" unitRef="u0" decimals="0" id="f1">1</t:A>')
assert f.get_all_facts() or f.get_errors()
''')

bug("facts-after-unresolved-context", "C06",
    [("brel/parsers/XML/xml_facts_parser.py", """                    xml_fact,
                    context_id=context_id,
                )
                continue
""", """                    xml_fact,
                    context_id=context_id,
                )
                break
""")],
    "a fact with a contextRef that no context has, followed by correct facts",
    "the facts after it are neither stored nor reported",
    '''
f = open_filing(context("c1") + '<t:N contextRef="c9" id="f1">1</t:N><t:N contextRef="c1" id="f2">2</t:N>')
assert [x.get_id() for x in f.get_all_facts()] == ["f2"], f.get_all_facts()
''')

bug("recognised-before-rewriting", "C13",
    [("brel/services/xml/xml_service.py", """        uri = self.resolve_uri(uri, referencing_uri)
        is_uri_remote = is_remote(uri)

        if self.__xml_repository.has_etree(uri):
            return

""", """        if self.__xml_repository.has_etree(uri):
            return

        uri = self.resolve_uri(uri, referencing_uri)
        is_uri_remote = is_remote(uri)

""")],
    "two documents that refer to each other by addresses a catalog rewrites",
    "loading them never ends",
    '''
import io
from lxml import etree
from brel.services.xml.xml_service import XMLService
from brel.data.xml.xml_repository import XMLRepository
from brel.data.uri_rewrite.in_memory_uri_rewrite_repository import InMemoryURIRewriteRepository
D = {"http://b.example/x.xsd": b'<a xmlns:x="u" x:href="http://a.example/y.xsd"/>', "http://b.example/y.xsd": b'<a xmlns:x="u" x:href="http://a.example/x.xsd"/>'}
class Files:
    def has_file(self, uri): return uri in D
    def get_file(self, uri): return io.BytesIO(D[uri])
class Parsers:
    def get_parser(self, uri): return etree.parse
rw = InMemoryURIRewriteRepository()
rw.upsert("http://a.example/", "http://b.example/")
repo = XMLRepository()
XMLService(Files(), repo, rw, Parsers()).add_etree_recursive("http://a.example/x.xsd")
assert len(repo.get_all_etrees()) == 2
''')

bug("label-language-from-root", "C29",
    [("brel/parsers/utils/lxml_utils.py", """    return get_elem_lang_recursive(xml_element.getparent())
""", """    root = xml_element.getroottree().getroot()
    return None if root is xml_element else get_elem_lang_recursive(root)
""")],
    "a label whose language is given on its link, not on the label or the root",
    "the label is reported as having no language and left out (or gets the language of the root)",
    '''
L = (f'<link:labelLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link" xml:lang="fr">{loc("A")}'
     f'<link:label xlink:type="resource" xlink:label="l1" xlink:role="http://www.xbrl.org/2003/role/label">Actif</link:label>'
     f'{arc("labelArc", CL, "A", "l1")}</link:labelLink>')
f = open_filing(context("c1"), [L])
a = [c for c in f.get_all_concepts() if c.get_name().get_local_name() == "A"][0]
assert [(str(l), l.get_language()) for l in a.get_labels()] == [("Actif", "fr")], [(str(l), l.get_language()) for l in a.get_labels()]
''')

bug("label-once-per-role", "C29",
    [("brel/reportelements/concept.py", """        self.__labels.append(label)
""", """        if not self.has_label_with_role(label.get_label_role()):
            self.__labels.append(label)
""")],
    "a concept with labels of one role in two languages",
    "only the label in the first language is available",
    '''
L = (f'<link:labelLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link">{loc("A")}'
     f'<link:label xlink:type="resource" xlink:label="l1" xml:lang="fr" xlink:role="http://www.xbrl.org/2003/role/label">Actif</link:label>'
     f'<link:label xlink:type="resource" xlink:label="l1" xml:lang="en" xlink:role="http://www.xbrl.org/2003/role/label">Asset</link:label>'
     f'{arc("labelArc", CL, "A", "l1")}</link:labelLink>')
f = open_filing(context("c1"), [L])
a = [c for c in f.get_all_concepts() if c.get_name().get_local_name() == "A"][0]
assert sorted((str(l), l.get_language()) for l in a.get_labels()) == [("Actif", "fr"), ("Asset", "en")], [(str(l), l.get_language()) for l in a.get_labels()]
''')

bug("cached-name-ignores-query", "C16",
    [("brel/services/file/file_service.py", """        return self.__file_repository.get_file(uri)

    def has_file""", """        return self.__file_repository.get_file(uri.partition("?")[0])

    def has_file"""), ("brel/services/file/file_service.py", """        self.__file_repository.add_file(uri, file)
""", """        self.__file_repository.add_file(uri.partition("?")[0], file)
""")],
    "two remote documents whose addresses differ only in their query",
    "the second overwrites the first, and both are read as the second",
    """
import io
from brel.services.file.file_service import FileService
from brel.data.file.pyfs_file_repository import PyFsFileRepository
s = FileService(PyFsFileRepository(os.path.join(WORK, "cache"), clear_cache=False), None, None)
for n in ("1", "2"):
    s.add_file("http://x.example/get?doc=" + n, io.BytesIO(n.encode()))
with s.get_file("http://x.example/get?doc=1") as f:
    assert f.read() == b"1"
""")

bug("references-of-redirect", "C16",
    [("brel/services/file/file_service.py", """            self.add_file(uri, file)
        except:
""", """            self.add_file(response.url, file)
        except:
"""), ("brel/services/file/file_service.py", """            return None

        return self.get_file(uri)
""", """            return None

        return self.get_file(response.url)
""")],
    "a remote document that is served after a redirect",
    "the document is stored under another address than the one it is asked for by",
    """
from brel.services.file.file_service import FileService
from brel.data.file.pyfs_file_repository import PyFsFileRepository
class R:
    content, url, status_code = b"<a/>", "http://y.example/b.xml", 200
    def raise_for_status(self): pass
class S:
    def get(self, *a, **k): return R()
s = FileService(PyFsFileRepository(os.path.join(WORK, "cache2"), clear_cache=False), None, S())
s.download_and_add_file("http://x.example/a.xml").close()
assert s.has_file("http://x.example/a.xml")
""")

TRACK = """
import brel.data.file.pyfs_file_repository as R, builtins
opened = []
real_get = R.PyFsFileRepository.get_file
def get_file(self, uri):
    f = real_get(self, uri)
    opened.append(f)
    return f
R.PyFsFileRepository.get_file = get_file
import brel.services.file.file_service as FSV
def tracked(*a, **k):
    f = builtins.open(*a, **k)
    opened.append(f)
    return f
FSV.open = tracked
"""

bug("references-left-open", "C30",
    [("brel/services/xml/xml_service.py", """        with self.__file_service.get_file(uri) as file:
            for reference_uri in self.__extract_references(file.read()):
                self.add_etree_recursive(reference_uri, referencing_uri=uri)
""", """        file = self.__file_service.get_file(uri)
        references = self.__extract_references(file.read())
        file.close()
        for reference_uri in references:
            self.add_etree_recursive(reference_uri, referencing_uri=uri)
""")],
    "a document whose references cannot be extracted (an encoding other than UTF-8)",
    "the stored copy of the document stays open when reading its references fails",
    TRACK + """
import mini
p = os.path.join(WORK, "latin.xml")
open(p, "wb").write('<?xml version="1.0" encoding="iso-8859-1"?><a xmlns="urn:x" b="\\u00e4\\u00f6"/>'.encode("latin-1"))
from brel import Filing
try:
    Filing.open(p)
except Exception:
    pass
assert opened and all(f.closed for f in opened), [f for f in opened if not f.closed]
""")

bug("stored-copy-left-open", "C30",
    [("brel/services/xml/xml_service.py", """            with self.__file_service.get_file(uri) as file:
                self.__xml_repository.add_etree(uri, parser(file))
""", """            stored_file = self.__file_service.get_file(uri)
            self.__xml_repository.add_etree(uri, parser(stored_file))
            stored_file.close()
""")],
    "a remote document in the cache that is not well-formed XML",
    "the cached copy of the document stays open when parsing it fails",
    """
import io, lxml.etree
from brel.data.file.pyfs_file_repository import PyFsFileRepository
from brel.services.file.file_service import FileService
from brel.services.xml.xml_service import XMLService
from brel.data.xml.xml_repository import XMLRepository
files = PyFsFileRepository(os.path.join(WORK, "cache3"), clear_cache=False)
files.add_file("http://x.example/a.xml", io.BytesIO(b"<a><b></a>"))
opened = []
class Files(FileService):
    def get_file(self, uri):
        f = FileService.get_file(self, uri)
        opened.append(f)
        return f
class Same:
    def rewrite(self, uri): return uri
class Parsers:
    def get_parser(self, uri): return lxml.etree.parse
s = XMLService(Files(files, None, None), XMLRepository(), Same(), Parsers())
try:
    s.add_etree_recursive("http://x.example/a.xml")
except Exception:
    pass
assert opened and all(f.closed for f in opened)
""")

bug("catalog-after-documents", "C20",
    [("brel/contexts/factory.py", """    context = FilingContext()
    parse_catalog(entrypoint_filepaths, context)

    xml_service = context.get_xml_service()
    for filepath in entrypoint_filepaths:
        xml_service.add_etree_recursive(filepath)
    return context
""", """    context = FilingContext()
    xml_service = context.get_xml_service()
    catalog_filepath = get_catalog_filepath(entrypoint_filepaths)
    for filepath in entrypoint_filepaths:
        if filepath != catalog_filepath:
            xml_service.add_etree_recursive(filepath)

    parse_catalog(entrypoint_filepaths, context)
    return context
""")],
    "a filing with a catalog that redirects an address its documents refer to",
    "the documents are looked up before the catalog has been read, so its redirections have no effect",
    """
import mini
d = os.path.join(WORK, "pkg")
os.makedirs(os.path.join(d, "META-INF"))
p = mini.write(folder=d, ref="http://mirror.invalid/tax/t.xsd")
open(os.path.join(d, "META-INF", "catalog.xml"), "w").write('<catalog xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog"><rewriteURI uriStartString="http://mirror.invalid/tax/" rewritePrefix="../"/></catalog>')
import requests
asked = []
def get(self, url, *a, **k):
    asked.append(url)
    raise requests.exceptions.ConnectionError(url)
requests.Session.get = get
try:
    from requests_cache import CachedSession
    CachedSession.get = get
except ImportError:
    pass
from brel.contexts.factory import create_filing_context
c = create_filing_context([os.path.join(d, "META-INF", "catalog.xml"), p])
assert "http://mirror.invalid/tax/t.xsd" not in asked, asked
""")

bug("inline-networks-need-facts", "C20",
    [("brel/parsers/xhtml_filing_parser.py", """        parse_footnote_networks_xhtml(
            self.get_context(), self.__footnote_network_elements
        )
        parse_networks_from_xmls(self.get_context())
""", """        context = self.get_context()
        facts = context.get_fact_repository()
        parse_footnote_networks_xhtml(context, self.__footnote_network_elements)
        if facts.get_all():
            parse_networks_from_xmls(context)
""")],
    "an inline document that reports no fact",
    "the networks and labels of the taxonomy are not read for an inline document without facts",
    """
import mini
f = mini.open_inline("<p>nothing reported</p>", mini.context("c1"))
assert f.get_all_facts() == []
assert [n for n in f.get_all_physical_networks()], "no networks"
assert f.get_concept_by_name("t:A").get_labels()
""")

bug("balance-checks-one-level", "C28",
    [("brel/networks/calculation_network.py", """                else:
                    if child.get_weight() > 0:
                        return False

                # check the balance of the children of the child
                if not is_subtree_balance_consistent(child):
                    return False
""", """                elif child.get_weight() > 0:
                    return False
                # check the balance of the children of the child
                elif not is_subtree_balance_consistent(child):
                    return False
""")],
    "a wrong weight below a subtotal of the same balance as its parent",
    "relationships below a child with the balance of its parent are not examined",
    """
import mini
cal = f'''<link:calculationLink xlink:type="extended" xlink:role="{mini.ROLE}">
{mini.loc("A")}{mini.loc("B")}{mini.loc("C")}
{mini.arc("calculationArc", mini.SUM, "A", "B", order="1", weight="1")}
{mini.arc("calculationArc", mini.SUM, "B", "C", order="1", weight="-1")}
</link:calculationLink>'''
from brel.networks import CalculationNetwork
f = mini.open_filing("", [mini.PRE, cal])
n = [c.get_calculation_network() for c in f.get_all_components() if c.get_calculation_network()]
assert n and not n[0].is_balance_consistent(), "the negative weight between two debits went unnoticed"
""")

bug("aggregation-first-root-decides", "C28",
    [("brel/networks/calculation_network.py", """            if not is_subnetwork_aggregation_consistent(root):
                return False

        return True""", """            return is_subnetwork_aggregation_consistent(root)

        return True""")],
    "a calculation network with two roots of which the second does not add up",
    "only the first root of a calculation network is examined",
    """
import mini
cal = f'''<link:calculationLink xlink:type="extended" xlink:role="{mini.ROLE}">
{mini.loc("A")}{mini.loc("B")}{mini.loc("C")}{mini.loc("D")}
{mini.arc("calculationArc", mini.SUM, "A", "B", order="1", weight="1")}
{mini.arc("calculationArc", mini.SUM, "C", "D", order="1", weight="1")}
</link:calculationLink>'''
from brel.networks import CalculationNetwork
els = '<xs:element name="D" id="t_D" nillable="true" type="xbrli:monetaryItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant" xbrli:balance="debit"/>'
body = mini.context("c1") + '<unit id="u"><measure>iso4217:USD</measure></unit>'
for name, v in (("A", 1), ("B", 1), ("C", 5), ("D", 7)):
    body += f'<t:{name} id="f{name}" contextRef="c1" unitRef="u" decimals="0">{v}</t:{name}>'
f = mini.open_filing(body, [mini.PRE, cal], elements=els)
n = [c.get_calculation_network() for c in f.get_all_components() if c.get_calculation_network()][0]
assert len(n.get_roots()) == 2
assert not n.is_aggregation_consistent(f.get_all_facts()), "5 = 7 went unnoticed"
""")

bug("lineitems-dict-needs-languages", "C24",
    [("brel/reportelements/lineitems.py", """        self,
        languages: Optional[List[str]] = None,
        translation_service: Optional[TranslationService] = None,
    ) -> Dict[str, Any]:
        \"\"\"
        Convert the line items""", """        self,
        languages: List[str],
        translation_service: TranslationService,
    ) -> Dict[str, Any]:
        \"\"\"
        Convert the line items""")],
    "line items described through the interface of report elements, without languages",
    "LineItems.convert_to_dict requires arguments that callers of IReportElement.convert_to_dict leave out",
    """
import mini
f = mini.open_filing("")
from brel.reportelements import LineItems
from brel import QName
kinds = [LineItems(f.get_all_report_elements()[0].get_name(), "x", [])] + f.get_all_report_elements()
for e in kinds:
    assert e.convert_to_dict()["name"]
""")

bug("footnote-order-not-implemented", "C24",
    [("brel/networks/footnote_network_node.py", """    def get_order(self) -> float:
        return self.__order
""", """    def get_order(self) -> float:
        # footnotes of a fact are not ordered
        raise NotImplementedError("footnotes are not ordered")
""")],
    "a footnote network that is walked through the interface of nodes",
    "FootnoteNetworkNode.get_order is left unimplemented",
    """
import mini
from brel import QName
from brel.networks import FootnoteNetworkNode
from brel.resource import BrelFootnote
f = mini.open_filing("")
q = f.get_all_report_elements()[0].get_name()
inner = FootnoteNetworkNode(f.get_all_report_elements()[0], [], "a", q, "r", q, 2.0)
n = FootnoteNetworkNode(f.get_all_report_elements()[0], [inner], "a", q, "r", q, 1.0)
assert n.convert_to_dict()["children"][0]["order"] == 2.0
""")

bug("htm-documents-not-read", "C27",
    [("brel/services/xml/xml_file_parser_resolver.py", """            ".xhtml": xhtml_parser,
            ".htm": xhtml_parser,
            ".html": xhtml_parser,
""", """            ".xhtml": xhtml_parser,
            ".html": xhtml_parser,
""")],
    "an inline document called .htm in a folder",
    "the stage that reads documents has no parser for .htm although the stages before it accept the suffix",
    """
import mini
p = mini.write_inline("<p>nothing</p>", mini.context("c1"))
q = p.rsplit(".", 1)[0] + ".htm"
os.rename(p, q)
from brel import Filing
assert Filing.open(os.path.dirname(q)).get_all_report_elements()
""")

bug("html-documents-as-plain-instances", "C27",
    [("brel/parsers/filing_parser_factory.py", """        if all(file.endswith(".xml") or file.endswith(".xsd") for file in files):
""", """        instance_suffixes = (".xml", ".xsd", ".html")
        if all(file.endswith(instance_suffixes) for file in files):
""")],
    "an inline document called .html",
    "the parser for plain instances is chosen for .html documents, and no fact is found",
    """
import mini
p = mini.write_inline('<p><ix:nonNumeric name="t:N" contextRef="c1" id="f1">x</ix:nonNumeric></p>', mini.context("c1"))
q = p.rsplit(".", 1)[0] + ".html"
os.rename(p, q)
from brel import Filing
assert len(Filing.open(os.path.dirname(q)).get_all_facts()) == 1
""")

bug("unsigned-bytes-not-integers", "C22",
    [("brel/reportelements/concept.py", """    "unsignedShortItemType",
    "unsignedByteItemType",
    "positiveIntegerItemType",
]
""", """    "unsignedShortItemType",
    "positiveIntegerItemType",
]
""")],
    "a concept of the type unsignedByteItemType",
    "unsignedByteItemType no longer counts as an integer type",
    """
import mini
els = '<xs:element name="U" id="t_U" nillable="true" type="xbrli:unsignedByteItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/>'
f = mini.open_filing(mini.BODY, elements=els)
c = f.get_concept_by_name("t:U")
assert c.is_numeric() and c.is_integer()
""")

bug("core-facts-without-units", "C22",
    [("brel/characteristics/brel_aspect.py", """Aspect.ENTITY._make_core()  # type: ignore
Aspect.UNIT._make_core()  # type: ignore
""", """Aspect.ENTITY._make_core()  # type: ignore
""")],
    "the core facts of a filing with numeric facts",
    "the unit aspect is not core, so facts with a unit are not listed among the core facts",
    """
import mini
body = mini.context("c1") + '<unit id="u"><measure>iso4217:USD</measure></unit><t:A id="f1" contextRef="c1" unitRef="u" decimals="0">5</t:A>'
f = mini.open_filing(body)
assert len(f.get_all_core_facts()) == 1
""")

bug("component-definition-from-calculation", "C22",
    [("brel/brel_component.py", """        return self.__definition_network != None
""", """        return (self.__definition_network or self.__calculation_network) != None
""")],
    "a role with a calculation network but no definition network",
    "a component claims to have a definition network when it only has a calculation network",
    """
import mini
f = mini.open_filing(mini.BODY, [mini.PRE, mini.CAL])
for c in f.get_all_components():
    assert c.has_definition_network() == (c.get_definition_network() is not None)
""")

bug("boolean-caption-capitalised", "C18",
    [("brel/reportelements/concept.py", """            "boolean:" + str(self.__nillable).lower(), languages
""", """            f"boolean:{self.__nillable}", languages
""")],
    "a concept listed with translated captions",
    "the yes/no beside the nillable caption is looked up as boolean:True, which is not in the table, and printed raw in every language",
    """
import mini
from brel.services.translation.translation_service import TranslationService
t = TranslationService()
t.load_from_csv()
f = mini.open_filing(mini.BODY, [mini.PRE])
c = f.get_all_concepts()[0]
d = c.convert_to_dict(["fr-FR", ""], t)
value = d[t.get("literal:nillable", "fr-FR")]
assert value in (t.get("boolean:true", "fr-FR"), t.get("boolean:false", "fr-FR")), value
""")

bug("link-configuration-from-cwd", "C18",
    [("brel/parsers/XML/networks/xml_networks_parser.py", """link_config_content = files("brel.config").joinpath("linkconfig.json").read_text()
""", """with open("brel/config/linkconfig.json", encoding="utf-8") as link_config_file:
    link_config_content = link_config_file.read()
""")],
    "importing the library in a program started from a directory other than the repository root",
    "the link configuration is looked up relative to the current directory",
    """
import os, sys, tempfile
sys.path.insert(0, os.getcwd())
os.chdir(tempfile.mkdtemp())
import mini
assert mini.open_filing(mini.BODY, [mini.PRE]).get_all_facts()
""")

bug("store-cleared-when-opened", "C21",
    [("brel/data/factory.py", """PyFsFileRepository(cache_location, clear_cache=False)
""", """PyFsFileRepository(cache_location)
""")],
    "documents stored by an earlier run",
    "every opened filing empties the folder of stored documents, which then have to be fetched again",
    """
import mini, os
home = os.path.expanduser("~")
store = os.path.join(home, ".brel", "dts_cache")
os.makedirs(store, exist_ok=True)
with open(os.path.join(store, "earlier.xsd"), "w") as f:
    f.write("<schema/>")
mini.open_filing(mini.BODY, [mini.PRE])
assert os.path.exists(os.path.join(store, "earlier.xsd"))
""")

bug("stored-documents-fetched-again", "C21",
    [("brel/services/xml/xml_service.py", """            with self.__file_service.get_file(uri) as file:
                self.__xml_repository.add_etree(uri, parser(file))
        elif""", """            file_to_parse = self.__file_service.download_and_add_file(uri)
            with file_to_parse or self.__file_service.get_file(uri) as file:
                self.__xml_repository.add_etree(uri, parser(file))
        elif""")],
    "a remote document that is stored already",
    "a stored document is requested from the network again",
    """
import mini, os, requests
from io import BytesIO
from brel.contexts.filing_context import FilingContext
requested = []
def get(self, uri, **options):
    requested.append(uri)
    raise requests.ConnectionError(uri)
requests.Session.get = get
context = FilingContext()
uri = "http://example.org/taxonomy/a.xsd"
context.get_file_service().add_file(uri, BytesIO(b'<schema xmlns="http://www.w3.org/2001/XMLSchema"/>'))
context.get_xml_service().add_etree_recursive(uri)
assert context.get_xml_service().has_etree(uri)
assert requested == [], requested
""")

bug("edgar-answers-in-current-folder", "C21",
    [("brel/utils/edgar.py", """edgar_cache_dir = os.path.join(os.path.expanduser("~"), ".brel_edgar_cache")
""", """edgar_cache_dir = os.path.abspath(os.path.join("~", ".brel_edgar_cache"))
os.makedirs(edgar_cache_dir, exist_ok=True)
""")],
    "use of the EDGAR helpers",
    "what the EDGAR helpers store is written below the directory the program was started in",
    """
import os, sys, tempfile
sys.path.insert(0, os.getcwd())
home, here = tempfile.mkdtemp(), tempfile.mkdtemp()
os.environ["HOME"] = home
os.chdir(here)
import brel.utils.edgar as edgar
class Answer:
    status_code = 200
    def json(self):
        return {"name": "x", "filings": {"recent": {"form": [], "isXBRL": [], "reportDate": []}}}
edgar.session.get = lambda *a, **k: Answer()
try:
    edgar.open_edgar("1", "10-K")
except ValueError:
    pass
assert os.listdir(here) == [], os.listdir(here)
assert os.listdir(os.path.join(home, ".brel_edgar_cache")) == ["0000000001.json"]
""")

FORMATS = """
import os, sys
sys.path.insert(0, os.getcwd())
from brel.parsers.XHMTL.xhtml_parse_transformation_registry import parse_non_numerical_fact_value, parse_numerical_fact_value
class Errors(list):
    def insert(self, *error, **values):
        self.append((error, values))
def text(value, form):
    errors = Errors()
    got = parse_non_numerical_fact_value(value, form, None, errors)
    return got, len(errors)
def number(value, form, scale="0"):
    errors = Errors()
    got = parse_numerical_fact_value(value, form, scale, None, errors)
    return float(got), len(errors)
"""
REGISTRY = "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py"

bug("latvian-year-first-order-lost", "C19",
    [(REGISTRY, '''    "ixt:date-year-day-monthname-lv": ["year", "day", "month"],
    "ixt:date-year-monthname-lv": ["year", "month"],
''', '''    "ixt:date-year-monthname-lv": ["year", "month"],
''')],
    "an inline date in the Latvian format with a year of two digits",
    "year and day of the date change places",
    FORMATS + """
assert text("21. gada 5. marts", "ixt:date-year-day-monthname-lv") == ("2021-03-05", 0), text("21. gada 5. marts", "ixt:date-year-day-monthname-lv")
""")

bug("typographic-apostrophe-kept", "C19",
    [(REGISTRY, '''    separators = " .,，'`´’′＇"
''', '''    separators = " .,，'`´′＇"
''')],
    "a number whose thousands are set apart with a typographic apostrophe",
    "the apostrophe stays in the value, which is no number any more",
    FORMATS + """
for mark in "'`´’′":
    assert number(f"1{mark}234.5", "ixt:num-dot-decimal-apos") == (1234.5, 0)
""")

bug("recurring-date-without-day", "C19",
    [(REGISTRY, '''    is_recurring = "day" in fact_format and "year" not in fact_format
''', '''    is_recurring = is_full_date and "year" not in fact_format
''')],
    "a date of a day and a month without a year",
    "the day is taken for the month and the month for a year",
    FORMATS + """
assert text("3/4", "ixt:date-day-month") == ("--04-03", 0), text("3/4", "ixt:date-day-month")
assert text("3/4", "ixt:datemonthday") == ("--03-04", 0)
assert text("3/4/2020", "ixt:datedotus") == ("2020-03-04", 0)
""")

bug("short-taisho-era-shifted", "C19",
    [(REGISTRY, '''    "大": (datetime.date(1912, 7, 30), datetime.date(1926, 12, 24)),
''', '''    "大": (datetime.date(1922, 7, 30), datetime.date(1926, 12, 24)),
''')],
    "a Japanese date with the short name of the Taisho era",
    "the date is ten years late",
    FORMATS + """
assert text("大正3年5月1日", "ixt:date-jpn-era-year-month-day") == ("1914-05-01", 0)
assert text("大3年5月1日", "ixt:date-jpn-era-year-month-day") == ("1914-05-01", 0), text("大3年5月1日", "ixt:date-jpn-era-year-month-day")
""")

REPREFIX = """
import os, re, mini
from mini import *
from brel import Filing
def reprefix(path, old, new):
    '''the same documents with another prefix'''
    d = os.path.dirname(path)
    for name in os.listdir(d):
        s = open(os.path.join(d, name)).read()
        s = re.sub(rf'(?<![\\\\w-]){old}:(?!//)', new + ':', s).replace('xmlns:' + old + '=', 'xmlns:' + new + '=')
        open(os.path.join(d, name), 'w').write(s)
    return path
def facts(path):
    return [(str(x.get_concept()), x.get_value()) for x in Filing.open(path).get_all_facts()]
CONTEXT = context("c", DUR)
"""

bug("schema-prefix-of-document", "C37",
    [("brel/parsers/XML/xml_report_element_parser.py", '''            namespaces={"xs": "http://www.w3.org/2001/XMLSchema"},
''', '''            namespaces={"xs": etree.getroot().nsmap.get("xs", target_namespace_url)},
''')],
    "a schema document that uses another prefix than xs: for XML Schema, say xsd:",
    "no element of the schema is read",
    REPREFIX + """
import tempfile
def names(path):
    return sorted(str(x.get_name()) for x in Filing.open(path).get_all_report_elements())
a = names(write())
b = names(reprefix(write(), "xs", "xsd"))
assert a and a == b, (len(a), len(b))
""")

bug("inline-header-prefix-of-document", "C37",
    [("brel/parsers/XHMTL/xhtml_parse_facts.py", '''            namespaces={"ix": "http://www.xbrl.org/2013/inlineXBRL"},
''', '''            namespaces={
                prefix or "xhtml": uri
                for prefix, uri in xbrl_instance.nsmap.items()
            },
''')],
    "an inline document that uses another prefix than ix:",
    "its header is not found, so no context is known and no fact is read",
    REPREFIX + """
BODYX = '<p><ix:nonNumeric name="t:N" contextRef="c" id="f1">abc</ix:nonNumeric></p>'
a = facts(write_inline(BODYX, CONTEXT))
b = facts(reprefix(write_inline(BODYX, CONTEXT), "ix", "inl"))
assert len(a) == 1 and a == b, (a, b)
""")

bug("resources-by-declared-prefix", "C37",
    [("brel/parsers/XHMTL/elements/parse_resources.py", '''            child_tag = get_prefix_localname_tag(child)
''', '''            child_tag = child.prefix + child.tag.replace(f"{{{child.nsmap[child.prefix]}}}", ":")
''')],
    "an inline document that uses another prefix than xbrli: for instances",
    "its contexts and units are reported as not allowed, and its facts are lost",
    REPREFIX + """
BODYX = '<p><ix:nonNumeric name="t:N" contextRef="c" id="f1">abc</ix:nonNumeric></p>'
a = facts(write_inline(BODYX, CONTEXT))
b = facts(reprefix(write_inline(BODYX, CONTEXT), "xbrli", "inst"))
assert len(a) == 1 and a == b, (a, b)
""")

bug("unit-of-empty-fact-dropped", "C07",
    [("brel/parsers/XML/xml_facts_parser.py", '''            if unit_id:
''', '''            if unit_id and xml_fact.text:
''')],
    "a numeric fact without content (xsi:nil) that names a unit",
    "the fact loses its unit",
    """
import mini
body = mini.context("c1") + mini.USD + '<t:A contextRef="c1" unitRef="usd" id="f1" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:nil="true"/>'
f = mini.open_filing(body).get_all_facts()
assert len(f) == 1 and str(f[0].get_unit()) == "usd", f
""")

bug("later-value-of-aspect-wins", "C09",
    [("brel/brel_context.py", '''            self.__characteristics[aspect] = characteristic

            self''', '''            self'''), ("brel/brel_context.py", '''        else:
            pass
''', '''
        self.__characteristics[aspect] = characteristic
''')],
    "a fact whose unit is added to a context that has one already (unit attribute of a nested inline number, repeated members)",
    "the second value replaces the first, unlike the list of aspects",
    """
import mini
f = mini.open_filing(mini.BODY).get_all_facts()
a, b = [x for x in f if str(x.get_context().get_concept()).endswith(("A", "B"))][:2]
c = a.get_context()
first = c.get_characteristic([x for x in c.get_aspects() if x.get_name() == "concept"][0])
c._add_characteristic(b.get_context().get_concept())
assert c.get_concept() is first, str(c.get_concept())
""")

bug("languages-tried-alphabetically", "C17",
    [("brel/services/translation/translation_service.py", '''        for language in languages:
            try:
''', '''        for language in sorted(set(languages)):
            try:
''')],
    "two languages with translations, given in another order than the alphabet's",
    "the caller's second language is used instead of the first",
    """
from brel.services.translation.translation_service import TranslationService
from brel.qnames.qname import QName
import os, tempfile
d = tempfile.mkdtemp()
with open(os.path.join(d, "t.csv"), "w") as f:
    f.write("namespace,localname,language,locale,translation\\nhttp://x,thing,en,us,house\\nhttp://x,thing,fr,fr,maison\\n")
s = TranslationService()
s.load_from_csv(os.path.join(d, "t.csv"))
q = QName("http://x", "", "thing")
assert s.get(q, ["fr-fr", "en-us"]) == "maison"
assert s.get(q, ["en-us", "fr-fr"]) == "house"
""")

bug("continuation-of-plain-facts-only", "C07",
    [("brel/parsers/XHMTL/elements/parse_continuation_chain.py", '''lambda x: "nonNumeric" in get_prefix_localname_tag(x)''',
      '''lambda x: x.get("format") is None''')],
    "a text fact that has a format and goes on in a continuation",
    "the fact loses the part in the continuation",
    """
import mini
body = ('<p><ix:nonNumeric name="t:N" contextRef="c" id="f1" format="ixt4:date-day-month-year" continuedAt="k">31.12.</ix:nonNumeric></p>'
        '<p><ix:continuation id="k">2023</ix:continuation></p>')
for fmt, want in (('xmlns:ixt4="http://www.xbrl.org/inlineXBRL/transformation/2020-02-12" format="ixt4:date-day-month-year"', "2023-12-31"), ("", "31.12.2023")):
    b = body.replace('format="ixt4:date-day-month-year"', fmt)
    f = mini.open_inline(b, mini.context("c", mini.DUR)).get_all_facts()
    assert len(f) == 1 and f[0].get_value() == want, [x.get_value() for x in f]
""")

bug("precision-without-decimals-only", "C07",
    [("brel/parsers/XHMTL/elements/parse_non_fraction.py", '''        precision = parse_decimals_or_precision(precision_str, False)
''', '''        if not decimals_str:
            precision = parse_decimals_or_precision(precision_str, False)
''')],
    "an inline number with both precision and decimals",
    "the precision is lost (and the double declaration is not reported)",
    """
import mini
body = '<p><ix:nonFraction name="t:A" contextRef="c" unitRef="usd" id="f1" decimals="0" precision="4">12</ix:nonFraction></p>'
f = mini.open_inline(body, mini.context("c") + mini.USD)
e = [str(x) for x in f.get_errors()]
a = f.get_all_facts()
assert e or a[0].get_precision() == 4, (e, a)
""")

C38 = """
import mini
f = mini.open_filing(mini.BODY)
"""

bug("prefix-overrides-uri", "C38",
    [("brel/services/report_element/report_element_service.py", '''        elif not search_params.uri and search_params.prefix:
            uri_candidates = dict.fromkeys(
                self.__namespace_repository.get_uris(search_params.prefix)
            )

        if uri_candidates or prefix_candidates:
            return''', '''        elif search_params.prefix:
            uri_candidates = dict.fromkeys(
                self.__namespace_repository.get_uris(search_params.prefix)
            )

        if uri_candidates or prefix_candidates:
            return''')],
    "a search that gives both URI and prefix, with a prefix the filing binds to another URI",
    "an element of another namespace is found",
    C38 + """
from brel.data.namespace.in_memory_namespace_repository import InMemoryNamespaceRepository
from brel.data.report_element.in_memory_report_element_repository import InMemoryReportElementRepository
from brel.services.report_element.report_element_service import ReportElementService
from brel.qnames.qname_search_params import QNameSearchParams
a = f.get_concept_by_name("t:A")
names, elements = InMemoryNamespaceRepository(), InMemoryReportElementRepository()
names.upsert("t", a.get_name().uri)
elements.upsert(a)
s = ReportElementService(names, elements)
assert s.get_fuzzy(QNameSearchParams(local_name="A", uri=a.get_name().uri, prefix="t")) == [a]
assert s.get_fuzzy(QNameSearchParams(local_name="A", uri="http://elsewhere.example", prefix="t")) == []
""")

bug("ambiguous-name-resolved", "C38",
    [("brel/parsers/utils/iterable_utils.py", '''    if next(iterator, None) is not None:
        raise ValueError(error_message)
''', '')],
    "a local name that two namespaces of the filing define",
    "a lookup by the local name gives an arbitrary one of the two instead of refusing",
    """
from brel.parsers.utils.iterable_utils import exactly_one
assert exactly_one([7]) == 7
try:
    exactly_one([1, 2])
except ValueError:
    pass
else:
    raise AssertionError("two elements accepted")
""")

bug("facts-by-local-name-of-concept", "C38",
    [("brel/brel_filing.py", '''        return self.get_facts_by_concept_name(concept.get_name())''',
      '''        return self.get_facts_by_concept_name(concept.get_name().local_name)''')],
    "a concept whose local name also names something in another namespace of the filing",
    "asking for the facts of a concept fails (or yields those of another one)",
    C38 + """
asked = []
f.get_facts_by_concept_name = lambda n, g=f.get_facts_by_concept_name: asked.append(n) or g(n)
a = f.get_concept_by_name("t:A")
assert f.get_facts_by_concept(a)
assert all(getattr(n, "uri", None) == a.get_name().uri or a.get_name().uri in str(n) for n in asked), asked
""")

C39 = """
import mini
ELEMENTS = '''
<xs:element name="LineItemsAxis" id="t_LineItemsAxis" abstract="true" nillable="true" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" xbrli:periodType="duration"/>
<xs:element name="Open" id="t_Open" nillable="true" type="t:domainItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>
<xs:element name="Flag" id="t_Flag" type="xbrli:booleanItemType" substitutionGroup="xbrli:item" xbrli:periodType="duration"/>
'''
f = mini.open_filing(mini.BODY, elements=ELEMENTS)
by = {e.get_name().local_name: e for e in f.get_all_report_elements()}
"""

bug("axis-named-after-line-items", "C39",
    [("brel/parsers/XML/xml_report_element_factory.py", '''        elif is_abstract and is_dimension_item:
            report_element = Dimension(report_element_name, id, labels)
        # elif is_abstract and is_domain_item_type and is_item:
        # report_element = Member(report_element_name, labels)
        elif is_abstract and is_line_items:
            report_element = LineItems(report_element_name, id, labels)
''', '''        elif is_abstract and is_line_items:
            report_element = LineItems(report_element_name, id, labels)
        # elif is_abstract and is_domain_item_type and is_item:
        # report_element = Member(report_element_name, labels)
        elif is_abstract and is_dimension_item:
            report_element = Dimension(report_element_name, id, labels)
''')],
    "a dimension whose name contains 'LineItems'",
    "the dimension is read as line items",
    C39 + """
assert type(by["LineItemsAxis"]).__name__ == "Dimension", type(by["LineItemsAxis"])
""")

bug("members-must-be-abstract", "C39",
    [("brel/parsers/XML/xml_report_element_factory.py", '''        if is_domain_item_type:
''', '''        if is_abstract and is_domain_item_type:
''')],
    "a domain member that is not declared abstract",
    "the member is read as a concept",
    C39 + """
assert type(by["Open"]).__name__ == "Member", type(by["Open"])
""")

bug("nillable-of-default", "C39",
    [("brel/reportelements/concept.py", '''        xml_nillable = xml_element.get("nillable", None)
''', '''        xml_nillable = xml_element.get("nillable", "true")
''')],
    "a concept declared without nillable",
    "the concept is nillable although its declaration does not say so",
    C39 + """
assert by["Flag"].is_nillable() is False
assert by["A"].is_nillable() is True and by["N"].is_nillable() is False
""")

C40 = """
import mini
PRE2 = mini.PRE.replace('</link:presentationLink>', mini.loc("N") + mini.loc("Mem") + mini.arc("presentationArc", mini.PC, "Mem", "N", order="1") + '</link:presentationLink>')
assert PRE2 != mini.PRE
f = mini.open_filing(mini.BODY, [PRE2, mini.CAL, mini.DEF, mini.LAB, mini.REF])
net = f.get_component(mini.ROLE).get_presentation_network()
roots = net.get_roots()
assert len(roots) == 2, roots
"""

bug("nodes-of-first-root", "C40",
    [("brel/networks/i_network.py", '''        roots: list[INetworkNode] = self.get_roots()
''', '''        roots: list[INetworkNode] = self.get_roots()[:1]
''')],
    "a network with several roots",
    "the nodes below the other roots are left out",
    C40 + """
names = sorted(n.get_report_element().get_name().local_name for n in net.get_all_nodes())
assert names == ["A", "Abs", "B", "C", "Mem", "N"], names
""")

bug("root-of-several", "C40",
    [("brel/networks/i_network.py", '''        if len(roots) > 1:
            raise ValueError(f"Cannot call get_root() for network with multiple roots")
''', '''        if self.is_physical() and len(roots) > 1:
            raise ValueError(f"Cannot call get_root() for network with multiple roots")
''')],
    "a network with several roots that is not physical",
    "get_root answers with one of them instead of refusing",
    C40 + """
for n in f.get_all_networks() if hasattr(f, "get_all_networks") else [net]:
    if len(n.get_roots()) > 1:
        try:
            n.get_root()
        except ValueError:
            continue
        raise AssertionError("get_root answered for several roots")
""")

bug("type-of-dimension-sticks", "C26",
    [("brel/reportelements/dimension.py", '''        self.__type = dim_type
''', '''        self.__type = self.__type or dim_type
''')],
    "a dimension that is made typed a second time",
    "the dimension keeps the type it was given first",
    """
import mini
f = mini.open_filing(mini.BODY)
d = [x for x in f.get_all_dimensions() if x.get_name().local_name == "TDim"][0]
first = d.get_type()
other = f.get_concept_by_name("t:A").get_name()
assert first != other and not d.is_explicit()
d.make_typed(other)
assert d.get_type() == other, d.get_type()
""")

PE = "brel/parsers/XML/characteristics/xml_parse_period.py"
bug("instant-day-first", "C41",
    [("brel/characteristics/period_characteristic.py", '''        period_instance.__instant_date = dateutil.parser.parse(instant_date).date()
''', '''        period_instance.__instant_date = dateutil.parser.parse(instant_date, dayfirst=True).date()
''')],
    "an instant on one of the first twelve days of a month",
    "day and month of such an instant are swapped",
    """
import datetime
import mini
f = mini.open_filing(mini.context("c1") + mini.context("c2", "<instant>2024-04-03</instant>") + '<t:N contextRef="c1" id="f1">x</t:N><t:N contextRef="c2" id="f2">y</t:N>')
got = {x.get_id(): x.get_period().get_instant_period() for x in f.get_all_facts()}
assert got == {"f1": datetime.date(2023, 12, 31), "f2": datetime.date(2024, 4, 3)}, got
""")

bug("one-day-duration-is-instant", "C41",
    [("brel/characteristics/period_characteristic.py", '''        period_instance.__is_instant = False

''', '''        period_instance.__is_instant = period_instance.__start_date == period_instance.__end_date

''')],
    "a duration that starts and ends on the same day",
    "a duration of one day says it is an instant but has no instant date",
    """
import mini
f = mini.open_filing(mini.context("c1", mini.DUR) + mini.context("c2", "<startDate>2024-04-03</startDate><endDate>2024-04-03</endDate>") + '<t:N contextRef="c1" id="f1">x</t:N><t:N contextRef="c2" id="f2">y</t:N>')
for x in f.get_all_facts():
    assert not x.get_period().is_instant(), x.get_id()
""")

bug("unknown-member-is-silent", "C04",
    [("brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py", '''        error_repository.insert(
            ErrorCode.INVALID_EXPLICIT_DIMENSION_MEMBER,
            xml_element,
            member=member_id,
            dimension=aspect_id,
        )
''', '')],
    "an explicit dimension value that names a member the taxonomy does not have",
    "the dimension is left out of the context and nothing is reported",
    """
import mini
f = mini.open_filing(mini.context("c3", segment='<xbrldi:explicitMember dimension="t:Dim">t:Nowhere</xbrldi:explicitMember>') + '<t:N contextRef="c3" id="f1">x</t:N>')
assert len(f.get_errors()) >= 1
""")

bug("label-without-language-is-silent", "C04",
    [("brel/parsers/XML/networks/xml_resource_parser.py", '''        if lang is None:
            error_repository.insert(ErrorCode.MISSING_LABEL_LANGUAGE, xml_element)
            return None''', '''        if lang is None:
            return None''')],
    "a label without xml:lang",
    "the label is dropped and nothing is reported",
    """
import mini
i = mini.LAB.index(' xml:lang="')
j = mini.LAB.index('"', i + 11)
f = mini.open_filing(mini.BODY, links=(mini.PRE, mini.CAL, mini.DEF, mini.LAB[:i] + mini.LAB[j + 1:], mini.REF))
assert len(f.get_errors()) >= 1
""")

bug("language-cut-at-two-letters", "C17",
    [("brel/services/translation/translation_service.py", '''            requested_language = requested_language.split("-")[0]
            available_language = available_language.split("-")[0]
''', '''            requested_language = requested_language[:2]
            available_language = available_language[:2]
''')],
    "locales that are not to be matched, and two languages whose codes of three letters begin alike",
    "a text in another language is taken",
    """
from brel.services.translation.translation_service import TranslationService
s = TranslationService()
s.set_match_locale(False)
assert s.languages_match("en-US", "en-GB")
assert not s.languages_match("fil-PH", "fi-FI")
""")

bug("one-language-as-letters", "C17",
    [("brel/brel_filing.py", '''        elif isinstance(function_languages, str):
            function_languages = [function_languages]

        preferred''', '''        elif isinstance(function_languages, str):
            function_languages = list(function_languages)

        preferred''')],
    "an export in one language that is given as text",
    "the language is taken apart into letters and not used",
    """
import mini
f = mini.open_filing(mini.BODY)
got = f.get_preferred_languages("de-de", False, False, False)
assert got[0] == "de-de", got
""")

bug("context-stops-at-unknown-member", "C09",
    [("brel/parsers/XML/xml_context_parser.py", '''                if explicit_dimension_characteristic is None:
                    continue
''', '''                if explicit_dimension_characteristic is None:
                    break
''')],
    "a context with a dimension value that cannot be used, followed by another one",
    "the dimension values after it are left out",
    """
import mini
seg = '<xbrldi:explicitMember dimension="t:Dim">t:Nowhere</xbrldi:explicitMember><xbrldi:typedMember dimension="t:TDim"><t:Dom>v</t:Dom></xbrldi:typedMember>'
f = mini.open_filing(mini.context("c3", segment=seg) + '<t:N contextRef="c3" id="f1">x</t:N>')
x = f.get_all_facts()[0]
assert len([a for a in x.get_aspects() if "TDim" in str(a.get_name())]) == 1, [str(a.get_name()) for a in x.get_aspects()]
""")

bug("document-stored-as-text", "C16",
    [("brel/services/file/file_service.py", '''            file = BytesIO(response.content)
''', '''            file = BytesIO(response.text.encode())
''')],
    "a remote document whose encoding the server does not name",
    "the stored document differs from what was received",
    """
import io
from brel.services.file.file_service import FileService
class Repo:
    kept = {}
    def add_file(self, uri, file):
        self.kept[uri] = file.read()
    def get_file(self, uri):
        return io.BytesIO(self.kept[uri])
class Response:
    content = '<?xml version="1.0" encoding="iso-8859-1"?><a>\\xe9</a>'.encode("latin-1")
    status_code = 200
    text = content.decode("utf-8", "replace")
    def raise_for_status(self):
        pass
class Session:
    def get(self, uri, **k):
        return Response()
s = FileService(Repo(), None, Session())
assert s.download_and_add_file("http://x/y.xml").read() == Response.content
""")
