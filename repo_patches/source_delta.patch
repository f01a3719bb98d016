From 08f52651e5123725070aceefebaaa2dc76350bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:10 +0000
Subject: [PATCH 01/78] fix: register the invalid unit id error under its own
 code

---
 brel/errors/error_factory_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 40cd86b..52d352d 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -219,7 +219,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "Context ID {context_id} is not valid.",
         "Check the `contextRef` attribute of the corresponding fact.",
     ),
-    ErrorCode.XML_INVALID_FACT_CONTEXT_ID: lambda: ErrorInstance(
+    ErrorCode.XML_INVALID_FACT_UNIT_ID: lambda: ErrorInstance(
         Severity.ERROR,
         Area.XML_INSTANCE,
         "102",
-- 
2.43.0


From b8dd63c4c5929660635da64683c27432c7b5bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:10 +0000
Subject: [PATCH 02/78] fix: repair error message templates that str.format
 rejects

---
 brel/errors/error_factory_registry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 52d352d..a470703 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -188,7 +188,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.XML_INSTANCE,
         "004",
-        "The unit {id} has a divide element with two children with the same tag: lambda: ErrorInstance(tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
+        "The unit {id} has a divide element with two children with the same tag: {tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
         "Check the children of the `divide` element. Did you forget to rename one of the children?",
     ),
     ErrorCode.XML_INVALID_UNIT_ELEMENT_CHILDREN: lambda: ErrorInstance(
@@ -445,8 +445,8 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Area.IXBRL_INSTANCE,
         "516",
         "Non-fraction child of another non-fraction element has a different format, scale or unit.\n"
-        + "Parent has the following format, scale and unit {parent_format), {parent_scale), {parent_unit}.\n"
-        + "The child has the following format, scale and unit: lambda: ErrorInstance(this_format), {this_scale), {this_unit}",
+        + "Parent has the following format, scale and unit: {parent_format}, {parent_scale}, {parent_unit}.\n"
+        + "The child has the following format, scale and unit: {this_format}, {this_scale}, {this_unit}",
         "Check the attributes of the child and parent element.",
     ),
     ErrorCode.IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE: lambda: ErrorInstance(
@@ -789,7 +789,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.TAXONOMY_PACKAGE,
         "002",
-        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: lambda: ErrorInstance(uri}",
+        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: {uri}",
         "Check the rewriteURI elements for typos or duplication.",
         QName(error_namespaces["tpe"], "tpe", "multipleRewriteURIsForStartString"),
     ),
-- 
2.43.0


From c276bee55f29c10572386825b85539c879b58b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:10 +0000
Subject: [PATCH 03/78] fix: supply the details the reported error messages
 need

---
 brel/parsers/XHMTL/elements/parse_hidden.py     | 2 +-
 brel/parsers/XHMTL/elements/parse_references.py | 2 +-
 brel/parsers/XML/xml_context_parser.py          | 6 +++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_hidden.py b/brel/parsers/XHMTL/elements/parse_hidden.py
index 4b80f2a..fb84e6a 100644
--- a/brel/parsers/XHMTL/elements/parse_hidden.py
+++ b/brel/parsers/XHMTL/elements/parse_hidden.py
@@ -22,5 +22,5 @@ def validate_hidden_elements(
                 )
             else:
                 error_repository.insert(
-                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT, element, tag=child_tag
+                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT, element, child_tag=child_tag
                 )
diff --git a/brel/parsers/XHMTL/elements/parse_references.py b/brel/parsers/XHMTL/elements/parse_references.py
index 010f98f..06b7388 100644
--- a/brel/parsers/XHMTL/elements/parse_references.py
+++ b/brel/parsers/XHMTL/elements/parse_references.py
@@ -35,5 +35,5 @@ def parse_references_elements(
 
             if child_tag not in ["link:schemaRef", "link:linkbaseRef"]:
                 error_repository.insert(
-                    ErrorCode.IXBRL_INVALID_REFERENCES_CHILD, child, child_tag=child_tag
+                    ErrorCode.IXBRL_INVALID_REFERENCES_CHILD, child, children=child_tag
                 )
diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index afb42bb..a470170 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -91,6 +91,10 @@ def parse_context_xml(
 
                 fact_context._add_characteristic(typed_dimension_characteristic)
             else:
-                error_repository.insert(ErrorCode.INVALID_DIMENSION_TYPE, xml_dimension)
+                error_repository.insert(
+                    ErrorCode.INVALID_DIMENSION_TYPE,
+                    xml_dimension,
+                    dimension_type=xml_dimension.tag,
+                )
 
     return fact_context
-- 
2.43.0


From 90073008444cf26a24c00cd00f46ecbba4218d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:53 +0000
Subject: [PATCH 04/78] fix: list facts that have no id

---
 brel/data/fact/in_memory_fact_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index 6eb46ae..a299f08 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -31,7 +31,7 @@ class InMemoryFactRepository(FactRepository):
         return id in self.__facts_by_id
 
     def get_all(self):
-        return list(self.__facts_by_id.values())
+        return list(self.__facts_by_id.values()) + self.__facts_without_id
 
     def upsert(self, fact: Fact) -> None:
         """
-- 
2.43.0


From d79790d6ccff239d848fe0cf95b38ce618a242ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:47 +0000
Subject: [PATCH 05/78] fix: pass the report and system language options to
 their own parameters

---
 brel/brel_filing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 80ff7b5..65a72de 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -567,8 +567,8 @@ class Filing:
 
         languages = self.get_preferred_languages(
             kwargs.get("languages"),
-            allow_system_language,
             allow_report_language,
+            allow_system_language,
             allow_default,
         )
 
-- 
2.43.0


From dfc41dc786ce2b65b7b65bbae7e7b85192a25106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:47 +0000
Subject: [PATCH 06/78] fix: setting one global output option keeps the others

---
 brel/config/brel_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index 0b26753..1515339 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -29,7 +29,7 @@ class BrelConfig:
 
     @classmethod
     def set_library_output_parameters(cls, **kwargs: Unpack[OutputParams]):
-        cls.output_params = kwargs
+        cls.output_params = OutputParams({**cls.output_params, **kwargs})
 
     @classmethod
     def get_boolean_output_parameter_by_name(
-- 
2.43.0


From 25f7db1dbcc2abb6ecb900415a1c6c10c06ce406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:04 +0000
Subject: [PATCH 07/78] fix: hand out copies of internal lists, sets and
 dictionaries

---
 brel/brel_context.py                                     | 2 +-
 brel/characteristics/brel_aspect.py                      | 2 +-
 brel/characteristics/unit_characteristic.py              | 4 ++--
 brel/data/component/in_memory_component_repository.py    | 2 +-
 brel/data/errors/in_memory_error_repository.py           | 2 +-
 brel/data/namespace/in_memory_namespace_repository.py    | 4 ++--
 brel/data/network/in_memory_network_repository.py        | 2 +-
 .../in_memory_table_linkbase_repository.py               | 2 +-
 brel/networks/definition_network_node.py                 | 2 +-
 brel/networks/footnote_network_node.py                   | 2 +-
 brel/networks/i_network.py                               | 9 ++++++++-
 brel/networks/label_network_node.py                      | 2 +-
 brel/networks/presentation_network_node.py               | 2 +-
 brel/networks/reference_network_node.py                  | 2 +-
 brel/parsers/utils/network_utils.py                      | 5 ++---
 brel/reportelements/abstract.py                          | 2 +-
 brel/reportelements/concept.py                           | 2 +-
 brel/reportelements/dimension.py                         | 2 +-
 brel/reportelements/hypercube.py                         | 2 +-
 brel/reportelements/lineitems.py                         | 2 +-
 brel/reportelements/member.py                            | 2 +-
 brel/resource/brel_reference.py                          | 2 +-
 22 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/brel/brel_context.py b/brel/brel_context.py
index 5a3cc82..6a236e5 100644
--- a/brel/brel_context.py
+++ b/brel/brel_context.py
@@ -69,7 +69,7 @@ class Context:
         Get all aspects of the context.
         :returns list[Aspect]: The aspects of the context.
         """
-        return self.__aspects
+        return list(self.__aspects)
 
     def get_characteristic(self, aspect: Aspect) -> ICharacteristic | None:
         """
diff --git a/brel/characteristics/brel_aspect.py b/brel/characteristics/brel_aspect.py
index 64b3979..fe87432 100644
--- a/brel/characteristics/brel_aspect.py
+++ b/brel/characteristics/brel_aspect.py
@@ -73,7 +73,7 @@ class Aspect:
         """
         Get the labels of the aspect.
         """
-        return self.__labels
+        return list(self.__labels)
 
     def has_label_with_language(self, language: str) -> bool:
         """
diff --git a/brel/characteristics/unit_characteristic.py b/brel/characteristics/unit_characteristic.py
index a37e087..7838176 100644
--- a/brel/characteristics/unit_characteristic.py
+++ b/brel/characteristics/unit_characteristic.py
@@ -58,13 +58,13 @@ class UnitCharacteristic(ICharacteristic):
         """
         :returns list[QName]: all numerators of the unit
         """
-        return self.__numerators
+        return list(self.__numerators)
 
     def get_denominators(self) -> list[QName]:
         """
         :returns list[QName]: all denominators of the unit
         """
-        return self.__denominators
+        return list(self.__denominators)
 
     def get_value(self) -> str:
         """
diff --git a/brel/data/component/in_memory_component_repository.py b/brel/data/component/in_memory_component_repository.py
index bed3472..9149d4e 100644
--- a/brel/data/component/in_memory_component_repository.py
+++ b/brel/data/component/in_memory_component_repository.py
@@ -17,7 +17,7 @@ class InMemoryComponentRepository(ComponentRepository):
         self.__components: list[Component] = []
 
     def get_all(self) -> list[Component]:
-        return self.__components
+        return list(self.__components)
 
     def upsert(self, component: Component) -> None:
         if component in self.__components:
diff --git a/brel/data/errors/in_memory_error_repository.py b/brel/data/errors/in_memory_error_repository.py
index c5901b5..fd5b0c5 100644
--- a/brel/data/errors/in_memory_error_repository.py
+++ b/brel/data/errors/in_memory_error_repository.py
@@ -20,7 +20,7 @@ class InMemoryErrorRepository(ErrorRepository):
         self.errors.append(error)
 
     def get_all(self) -> list[ErrorInstance]:
-        return self.errors
+        return list(self.errors)
 
     def clear(self) -> None:
         self.errors.clear()
diff --git a/brel/data/namespace/in_memory_namespace_repository.py b/brel/data/namespace/in_memory_namespace_repository.py
index 04e2ba6..163af0a 100644
--- a/brel/data/namespace/in_memory_namespace_repository.py
+++ b/brel/data/namespace/in_memory_namespace_repository.py
@@ -22,7 +22,7 @@ class InMemoryNamespaceRepository(NamespaceRepository):
         self.__uri_to_prefix[uri].add(prefix)
 
     def get_uris(self, prefix: str) -> set[str]:
-        return self.__prefix_to_url.get(prefix, set())
+        return set(self.__prefix_to_url.get(prefix, set()))
 
     def get_prefixes(self, uri: str) -> set[str]:
-        return self.__uri_to_prefix.get(uri, set())
+        return set(self.__uri_to_prefix.get(uri, set()))
diff --git a/brel/data/network/in_memory_network_repository.py b/brel/data/network/in_memory_network_repository.py
index 8d888ac..1f07ad2 100644
--- a/brel/data/network/in_memory_network_repository.py
+++ b/brel/data/network/in_memory_network_repository.py
@@ -19,7 +19,7 @@ class InMemoryNetworkRepository(NetworkRepository):
         self.__networks: dict[Type[INetwork], list[INetwork]] = defaultdict(list)
 
     def get_by_type(self, type: Type[INetwork]) -> list[INetwork]:
-        return self.__networks[type]
+        return list(self.__networks.get(type, []))
 
     def get_by_linkrole(self, linkrole: str) -> list[INetwork]:
         return [
diff --git a/brel/data/table_linkbase/in_memory_table_linkbase_repository.py b/brel/data/table_linkbase/in_memory_table_linkbase_repository.py
index fa38e0f..be9a584 100644
--- a/brel/data/table_linkbase/in_memory_table_linkbase_repository.py
+++ b/brel/data/table_linkbase/in_memory_table_linkbase_repository.py
@@ -20,7 +20,7 @@ class InMemoryTableLinkbaseRepository(TableLinkbaseRepository):
         return [x for xs in self.__structural_tables_by_linkrole.values() for x in xs]
 
     def get_definition_table_with_linkrole(self, linkrole: str) -> List[Table]:
-        return self.__structural_tables_by_linkrole.get(linkrole) or []
+        return list(self.__structural_tables_by_linkrole.get(linkrole) or [])
 
     def upsert_definition_table(self, table: Table) -> None:
         self.__structural_tables_by_linkrole[table.get_linkrole()].append(table)
diff --git a/brel/networks/definition_network_node.py b/brel/networks/definition_network_node.py
index 7992602..52cb0fc 100644
--- a/brel/networks/definition_network_node.py
+++ b/brel/networks/definition_network_node.py
@@ -59,7 +59,7 @@ class DefinitionNetworkNode(INetworkNode):
         return "report element"
 
     def get_children(self) -> list[INetworkNode]:
-        return cast(list[INetworkNode], self.__children)
+        return list(cast(list[INetworkNode], self.__children))
 
     def get_order(self) -> float:
         return self.__order
diff --git a/brel/networks/footnote_network_node.py b/brel/networks/footnote_network_node.py
index c5b8d03..11da99d 100644
--- a/brel/networks/footnote_network_node.py
+++ b/brel/networks/footnote_network_node.py
@@ -80,7 +80,7 @@ class FootnoteNetworkNode(INetworkNode):
             )
 
     def get_children(self) -> list[INetworkNode]:
-        return cast(list[INetworkNode], self.__children)
+        return list(cast(list[INetworkNode], self.__children))
 
     def get_order(self) -> float:
         return self.__order
diff --git a/brel/networks/i_network.py b/brel/networks/i_network.py
index 2baa6dd..fc8f0ac 100644
--- a/brel/networks/i_network.py
+++ b/brel/networks/i_network.py
@@ -55,7 +55,7 @@ class INetwork(ABC):
         Get all root nodes of the network
         :returns list[NetworkNode]: representing the root nodes of the network.
         """
-        return self.__roots
+        return list(self.__roots)
 
     def get_link_role(self) -> str:
         """
@@ -80,6 +80,13 @@ class INetwork(ABC):
         """
         return self.__is_physical
 
+    def _add_root(self, root: INetworkNode) -> None:
+        """
+        Add a root node to the network. Used when partial networks are combined.
+        :param root: the root node to add
+        """
+        self.__roots.append(root)
+
     # Second class citizens
     def get_arc_roles(self) -> list[str]:
         """
diff --git a/brel/networks/label_network_node.py b/brel/networks/label_network_node.py
index 12107be..d771606 100644
--- a/brel/networks/label_network_node.py
+++ b/brel/networks/label_network_node.py
@@ -68,7 +68,7 @@ class LabelNetworkNode(INetworkNode):
             )
 
     def get_children(self) -> list[INetworkNode]:
-        return self.__children
+        return list(self.__children)
 
     def get_order(self) -> int:
         return 1
diff --git a/brel/networks/presentation_network_node.py b/brel/networks/presentation_network_node.py
index fe22e2d..f5f0337 100644
--- a/brel/networks/presentation_network_node.py
+++ b/brel/networks/presentation_network_node.py
@@ -91,7 +91,7 @@ class PresentationNetworkNode(INetworkNode):
         """
         # return lsitself.__children
 
-        return cast(list["INetworkNode"], self.__children)
+        return list(cast(list["INetworkNode"], self.__children))
 
     def get_preferred_label_role(self) -> str | None:
         """
diff --git a/brel/networks/reference_network_node.py b/brel/networks/reference_network_node.py
index e888ba0..6ccae78 100644
--- a/brel/networks/reference_network_node.py
+++ b/brel/networks/reference_network_node.py
@@ -68,7 +68,7 @@ class ReferenceNetworkNode(INetworkNode):
             )
 
     def get_children(self) -> list[INetworkNode]:
-        return cast(list[INetworkNode], self.__children)
+        return list(cast(list[INetworkNode], self.__children))
 
     def get_order(self) -> float:
         return self.__order
diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index d6b369d..609bc29 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -71,11 +71,10 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
     # Step 2. Make an aggregate network.
     # In this case we re-use the first network as the aggregate network.
     agg_network = networks_sorted.pop()
-    agg_roots = agg_network.get_roots()
 
     def get_all_nodes():
         all_nodes = []
-        for root in agg_roots:
+        for root in agg_network.get_roots():
             all_nodes.extend(root.get_all_descendants())
         return all_nodes
 
@@ -88,7 +87,7 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
         for root in network.get_roots():
             parent = next((n for n in aggregate_nodes if nodes_equal(n, root)), None)
             if parent is None:
-                agg_roots.append(root)
+                agg_network._add_root(root)
             else:
                 for child in root.get_children():
                     parent._add_child(child)
diff --git a/brel/reportelements/abstract.py b/brel/reportelements/abstract.py
index 917a19c..3a70398 100644
--- a/brel/reportelements/abstract.py
+++ b/brel/reportelements/abstract.py
@@ -49,7 +49,7 @@ class Abstract(IReportElement):
         Get the labels of the abstract element.
         :returns list[Label]: contains the labels of the abstract element
         """
-        return self.__labels
+        return list(self.__labels)
 
     def _add_label(self, label: BrelLabel):
         """
diff --git a/brel/reportelements/concept.py b/brel/reportelements/concept.py
index 0943747..7ac28e4 100644
--- a/brel/reportelements/concept.py
+++ b/brel/reportelements/concept.py
@@ -200,7 +200,7 @@ class Concept(IReportElement):
         Get the labels of the concept.
         :returns list[Label]: all labels of the concept
         """
-        return self.__labels
+        return list(self.__labels)
 
     def _add_label(self, label: BrelLabel) -> None:
         """
diff --git a/brel/reportelements/dimension.py b/brel/reportelements/dimension.py
index 6ac5030..671a877 100644
--- a/brel/reportelements/dimension.py
+++ b/brel/reportelements/dimension.py
@@ -54,7 +54,7 @@ class Dimension(IReportElement):
         Get the labels of the dimension.
         :returns list[Label]: all labels of the dimension
         """
-        return self.__labels
+        return list(self.__labels)
 
     def _add_label(self, label: BrelLabel):
         """
diff --git a/brel/reportelements/hypercube.py b/brel/reportelements/hypercube.py
index 8b78877..2eeb87d 100644
--- a/brel/reportelements/hypercube.py
+++ b/brel/reportelements/hypercube.py
@@ -39,7 +39,7 @@ class Hypercube(IReportElement):
         """
         @return list[BrelLabel]: the labels of the hypercube
         """
-        return self.__labels
+        return list(self.__labels)
 
     def _add_label(self, label: BrelLabel):
         """
diff --git a/brel/reportelements/lineitems.py b/brel/reportelements/lineitems.py
index c15bb04..01af704 100644
--- a/brel/reportelements/lineitems.py
+++ b/brel/reportelements/lineitems.py
@@ -39,7 +39,7 @@ class LineItems(IReportElement):
         """
         :returns list[BrelLabel]: the labels of the line items
         """
-        return self.__labels
+        return list(self.__labels)
 
     def _add_label(self, label: BrelLabel):
         """
diff --git a/brel/reportelements/member.py b/brel/reportelements/member.py
index edacfa0..5dfe28d 100644
--- a/brel/reportelements/member.py
+++ b/brel/reportelements/member.py
@@ -45,7 +45,7 @@ class Member(IReportElement):
         """
         :returns list[BrelLabel]: the labels of the member
         """
-        return self.__labels
+        return list(self.__labels)
 
     def _add_label(self, label: BrelLabel):
         """
diff --git a/brel/resource/brel_reference.py b/brel/resource/brel_reference.py
index fd29564..483143b 100644
--- a/brel/resource/brel_reference.py
+++ b/brel/resource/brel_reference.py
@@ -38,7 +38,7 @@ class BrelReference(IResource):
         return None
 
     def get_content(self) -> dict:
-        return self.__content
+        return dict(self.__content)
 
     def convert_to_dict(self) -> dict:
         return {
-- 
2.43.0


From fa0feceaf65ea602bd3e89f8187f129b1d86deef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:06 +0000
Subject: [PATCH 08/78] fix: a footnote relationship without a usable order has
 order 1

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index f6172c7..b239636 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -203,6 +203,8 @@ def parse_relationship_attributes(
 
     order_str = get_str_attribute_optional(relationship_element, "order")
 
+    # Assuming the default order of the specification
+    order = 1.0
     if order_str:
         try:
             order = float(order_str)
@@ -213,9 +215,6 @@ def parse_relationship_attributes(
                 order=order_str,
             )
 
-    if not order:
-        order = 1.0
-
     return (arcrole, linkrole, order)
 
 
-- 
2.43.0


From ee8618a494eacb7a05479011cf35a73e6c3a9328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:06 +0000
Subject: [PATCH 09/78] fix: parse inline facts whatever the prefix of their
 element

---
 brel/parsers/XHMTL/xhtml_parse_facts.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_facts.py b/brel/parsers/XHMTL/xhtml_parse_facts.py
index 60de3c1..3210c25 100644
--- a/brel/parsers/XHMTL/xhtml_parse_facts.py
+++ b/brel/parsers/XHMTL/xhtml_parse_facts.py
@@ -41,7 +41,6 @@ from brel.parsers.XML.characteristics import parse_unit_from_xml
 from brel.parsers.XML.xml_context_parser import parse_context_xml
 from brel.parsers.utils.lxml_utils import (
     find_elements,
-    get_prefix_localname_tag,
     get_str_attribute_optional,
 )
 
@@ -166,7 +165,8 @@ def parse_facts(
     error_repository = filing_context.get_error_repository()
 
     for fact_element in fact_elements:
-        element_tag = get_prefix_localname_tag(fact_element)
+        # the prefix of the inline namespace may differ from element to element
+        element_name = etree.QName(fact_element).localname
         fact_id = get_str_attribute_optional(fact_element, "id")
         characteristics: List[UnitCharacteristic | ConceptCharacteristic] = []
 
@@ -213,7 +213,7 @@ def parse_facts(
                     unit_id=unit_id,
                     fact_id=str(fact_id),
                 )
-        elif not unit_id and element_tag == "ix:nonFraction":
+        elif not unit_id and element_name == "nonFraction":
             error_repository.insert(
                 ErrorCode.IXBRL_NON_FRACTION_WITHOUT_UNIT,
                 fact_element,
@@ -242,12 +242,12 @@ def parse_facts(
         for characteristic in characteristics:
             context._add_characteristic(characteristic)
 
-        if element_tag == "ix:nonNumeric":
+        if element_name == "nonNumeric":
             continuation_chain = continuation_chains.get(fact_element) or []
             fact = parse_non_numeric_fact_element(
                 fact_element, context, continuation_chain, filing_context, taken_ids
             )
-        elif element_tag == "ix:nonFraction":
+        else:
             fact = parse_non_fraction_fact_element(
                 fact_element, context, filing_context, taken_ids
             )
-- 
2.43.0


From e498e1376700df27911b3ad90377fd08a0862011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:08 +0000
Subject: [PATCH 10/78] fix: a typed dimension that is not defined is reported
 and left out of the context

---
 brel/parsers/XML/characteristics/xml_parse_typed_dimension.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index b06f67c..f467893 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -71,6 +71,7 @@ def parse_typed_dimension_from_xml(
             xml_element,
             dimension=dimension_axis,
         )
+        return None
 
     i_report_element = report_element_repository.get_typed_by_qname(
         dimension_qname, Dimension
-- 
2.43.0


From 512e4a6fd63aa40acc10f17c6f2ded7c204c798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:08 +0000
Subject: [PATCH 11/78] fix: a malformed divide element of a unit is reported
 without failing

---
 brel/parsers/XML/characteristics/xml_parse_unit.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 21fe6a9..1018e01 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -107,6 +107,12 @@ def parse_unit_from_xml(
                         child_tag=num_or_denom_tag,
                     )
 
+                if len(num_or_denom) == 0:
+                    error_repository.insert(
+                        ErrorCode.XML_MISSING_UNIT_MEASURE, num_or_denom
+                    )
+                    return None
+
                 measure_child = num_or_denom[0]
                 child_qname = parse_unit_measure_from_xml(measure_child, filing_context)
 
@@ -118,7 +124,10 @@ def parse_unit_from_xml(
                 elif "unitDenominator" in num_or_denom_tag:
                     denominators.append(child_qname)
 
-            if num_and_denom[0].tag == num_and_denom[1].tag:
+            if (
+                len(num_and_denom) == 2
+                and num_and_denom[0].tag == num_and_denom[1].tag
+            ):
                 error_repository.insert(
                     ErrorCode.XML_DUPLICATE_DIVIDE_ELEMENT_CHILDREN,
                     xml_element,
-- 
2.43.0


From 006942c0bd12611f123538a7bbb78c133c8fa8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:08 +0000
Subject: [PATCH 12/78] fix: a nil fraction without content has no value,
 however its nil attribute is written

---
 brel/parsers/XHMTL/elements/parse_non_fraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 219ea8f..3894f48 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -218,7 +218,7 @@ def parse_non_fraction_fact_element(
     validate_descendant_non_fraction_rules(fact_element, error_repository)
 
     fact_value = fact_element.text or ""
-    if xsi_nil == "true":
+    if xsi_nil == "true" or not (has_text or has_children):
         fact_value = ""
     elif has_text:
         fact_value = process_non_fraction_value(fact_element, error_repository)
-- 
2.43.0


From 2960bd6e68246af0a3bd456f751ffe3ab7d00cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:08 +0000
Subject: [PATCH 13/78] fix: a date lacking one of its parts is reported
 without failing

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index c268cd7..45197f8 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -791,9 +791,8 @@ def validate_date_fact_value(
             ErrorCode.DAY_NOT_PRESENT_IN_FULL_DATE, element, date=fact_value
         )
 
-    iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date else '01'}"
-
     try:
+        iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date else '01'}"
         datetime.date.fromisoformat(iso8601_formatted_string)
     except Exception:
         error_repository.insert(
-- 
2.43.0


From 264197a8bb014b303a16328d8acf0f8e57543b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:08 +0000
Subject: [PATCH 14/78] fix: a context or unit without an id is reported and
 left out

---
 brel/parsers/XHMTL/xhtml_parse_facts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_facts.py b/brel/parsers/XHMTL/xhtml_parse_facts.py
index 3210c25..deb44bb 100644
--- a/brel/parsers/XHMTL/xhtml_parse_facts.py
+++ b/brel/parsers/XHMTL/xhtml_parse_facts.py
@@ -91,7 +91,7 @@ def parse_contexts(
 
         if id is None:
             error_repository.insert(ErrorCode.IXBRL_CONTEXT_WITHOUT_ID, context_element)
-            id = str(id)
+            continue
 
         if id in taken_ids:
             error_repository.insert(
@@ -121,6 +121,7 @@ def parse_units(
 
         if id is None:
             error_repository.insert(ErrorCode.IXBRL_UNIT_WITHOUT_ID, unit_element)
+            continue
 
         if id in taken_ids:
             error_repository.insert(
-- 
2.43.0


From 55f05cc2cb3f0558fe975bbfe4fa05923fb002e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:08 +0000
Subject: [PATCH 15/78] fix: a relationship naming an unknown fact or footnote
 is reported without failing

---
 .../XHMTL/networks/xhtml_parse_footnote_network.py  | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index b239636..9137bd1 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -265,7 +265,11 @@ def create_footnote_network_nodes(
     for from_ids, to_ids, arcrole, linkrole, order in arcs:
         for from_id in from_ids:
             if from_id not in id_to_node and from_id in root_ids:
-                from_object = fact_repository.get_by_id(from_id)
+                from_object = fact_repository.get_by_id_optional(from_id)
+
+                if not from_object:
+                    continue
+
                 id_to_node[from_id] = FootnoteNetworkNode(
                     from_object,
                     [],
@@ -280,7 +284,7 @@ def create_footnote_network_nodes(
                 to_object = (
                     footnotes[to_id]
                     if to_id in footnotes
-                    else fact_repository.get_by_id(to_id)
+                    else fact_repository.get_by_id_optional(to_id)
                 )
 
                 if not to_object:
@@ -297,7 +301,7 @@ def create_footnote_network_nodes(
                     order,
                 )
 
-    root_nodes = [id_to_node[id] for id in root_ids]
+    root_nodes = [id_to_node[id] for id in root_ids if id in id_to_node]
 
     return id_to_node, root_nodes
 
@@ -308,6 +312,9 @@ def connect_footnote_network_nodes(
 ):
     for from_ids, to_ids, _, _, _ in arcs:
         for from_id, to_id in itertools.product(from_ids, to_ids):
+            if from_id not in id_to_node or to_id not in id_to_node:
+                continue
+
             from_node = id_to_node[from_id]
             to_node = id_to_node[to_id]
             from_node._add_child(to_node)
-- 
2.43.0


From a77ed250e9a182f5f4953c7413d790dc13a4bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:08 +0000
Subject: [PATCH 16/78] fix: comments and processing instructions in a document
 are not taken for data

---
 brel/services/factory.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/brel/services/factory.py b/brel/services/factory.py
index 9c5584e..a0a869a 100644
--- a/brel/services/factory.py
+++ b/brel/services/factory.py
@@ -8,7 +8,7 @@
 ====================
 """
 
-from lxml.etree import parse as parse_xml
+from lxml.etree import XMLParser, parse as parse_xml
 from lxml.html import html5parser
 from requests import Session
 from brel.data.errors.error_repository import ErrorRepository
@@ -50,7 +50,8 @@ def create_xml_service(
 
 
 def create_xml_file_parser_resolver() -> XMLFileParserResolver:
-    return XMLFileParserResolver(
-        lambda content: parse_xml(content),
-        lambda content: parse_xml(content),
-    )
+    # comments and processing instructions are not part of the data
+    def parse(content):
+        return parse_xml(content, XMLParser(remove_comments=True, remove_pis=True))
+
+    return XMLFileParserResolver(parse, parse)
-- 
2.43.0


From c443f2942a0d18cf429c21b475c51007ed8af7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:33 +0000
Subject: [PATCH 17/78] fix: a footnote relationship between facts does not
 take the truth value of a fact

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 9137bd1..08dd913 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -267,7 +267,7 @@ def create_footnote_network_nodes(
             if from_id not in id_to_node and from_id in root_ids:
                 from_object = fact_repository.get_by_id_optional(from_id)
 
-                if not from_object:
+                if from_object is None:
                     continue
 
                 id_to_node[from_id] = FootnoteNetworkNode(
@@ -287,7 +287,7 @@ def create_footnote_network_nodes(
                     else fact_repository.get_by_id_optional(to_id)
                 )
 
-                if not to_object:
+                if to_object is None:
                     # Error
                     continue
 
-- 
2.43.0


From 502b6b2038f04b8eb90f50a8a15ba7ab3cc84262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:33 +0000
Subject: [PATCH 18/78] fix: an unavailable remote file is reported and the
 remaining files are still read

---
 brel/services/file/file_service.py | 18 ++++++++++++++----
 brel/services/xml/xml_service.py   |  6 +++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index 9f52118..0fbcd8d 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -10,8 +10,8 @@
 
 import time
 from io import BytesIO
-from typing import IO
-from requests import Session
+from typing import IO, Optional
+from requests import RequestException, Session
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.file.file_repository import FileRepository
 from brel.errors.error_code import ErrorCode
@@ -37,7 +37,7 @@ class FileService:
     def has_file(self, uri: str) -> bool:
         return self.__file_repository.has_file(uri)
 
-    def download_and_add_file(self, uri: str) -> IO[bytes]:
+    def download_and_add_file(self, uri: str) -> Optional[IO[bytes]]:
         headers = {}
 
         if "www.sec.gov" in uri:
@@ -48,7 +48,16 @@ class FileService:
             }
             time.sleep(0.1)
 
-        response = self.__session.get(uri, headers=headers, timeout=10)
+        try:
+            response = self.__session.get(uri, headers=headers, timeout=10)
+        except RequestException as exception:
+            self.__error_repository.insert(
+                ErrorCode.UNAVAILABLE_REMOTE_FILE,
+                uri=uri,
+                status_code=type(exception).__name__,
+            )
+            return None
+
         try:
             response.raise_for_status()
             file = BytesIO(response.content)
@@ -59,6 +68,7 @@ class FileService:
                 uri=uri,
                 status_code=str(response.status_code),
             )
+            return None
 
         return self.get_file(uri)
 
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index ae53ca7..4a7e5f9 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -68,7 +68,11 @@ class XMLService:
             with self.__file_service.get_file(uri) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
         elif is_uri_remote:
-            with self.__file_service.download_and_add_file(uri) as file:
+            downloaded_file = self.__file_service.download_and_add_file(uri)
+            if downloaded_file is None:
+                return
+
+            with downloaded_file as file:
                 self.__xml_repository.add_etree(uri, parser(file))
         else:
             local_filepath = urllib.parse.urlparse(uri).path
-- 
2.43.0


From 1383d83a1464f5d07f668e6d18a1e9d0938bda43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:59 +0000
Subject: [PATCH 19/78] fix: a typed domain that cannot be found is reported
 without failing

---
 brel/parsers/XML/xml_report_element_parser.py | 17 +++++++++--------
 brel/services/xml/xml_service.py              |  3 +++
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 703202c..a79d1fa 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -89,14 +89,15 @@ def parse_report_element(
 
             if has_str_attribute(report_element_xml, typed_domain_ref):
                 ref_full = get_str_attribute(report_element_xml, typed_domain_ref)
-                ref_schema_name, ref_id = ref_full.split("#")
-                refschema = (
-                    xml_service.get_etree(ref_schema_name)
-                    if ref_schema_name and ref_schema_name != "."
-                    else current_etree
-                )
-                ref_xml = refschema.find(f".//*[@id='{ref_id}']")
-                if ref_xml is None:
+                ref_schema_name, _, ref_id = ref_full.partition("#")
+                ref_xml = None
+                if not ref_schema_name or ref_schema_name == ".":
+                    ref_xml = current_etree.find(f".//*[@id='{ref_id}']")
+                elif xml_service.has_etree(ref_schema_name):
+                    refschema = xml_service.get_etree(ref_schema_name)
+                    ref_xml = refschema.find(f".//*[@id='{ref_id}']")
+
+                if ref_xml is None or not has_str_attribute(ref_xml, "type"):
                     error_repository.insert(
                         ErrorCode.REFERENCED_SCHEMA_ELEMENT_NOT_FOUND,
                         report_element_xml,
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 4a7e5f9..d862758 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -108,6 +108,9 @@ class XMLService:
 
         return reference_uris
 
+    def has_etree(self, uri: str) -> bool:
+        return self.__xml_repository.has_etree(uri)
+
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
 
-- 
2.43.0


From c3abb3280a56d3bb95f3e77ca9ef3a1ff8f0c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:59 +0000
Subject: [PATCH 20/78] fix: an entity identifier without a value is reported

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index cc4b5da..ad5f3d7 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -51,7 +51,9 @@ def parse_entity_from_xml(
     entity_id = identifier_element.text
 
     if entity_id is None:
-        f"Could not find text in identifier element {identifier_element}",
+        error_repository.insert(
+            ErrorCode.ENTITY_IDENTIFIER_MISSING_VALUE, identifier_element
+        )
         return None
 
     if characteristic_repository.has(entity_id, EntityCharacteristic):
-- 
2.43.0


From e7d5b3535fae0a9830815983a7581df215eca240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:16 +0000
Subject: [PATCH 21/78] fix: a fraction with neither text nor children has no
 value

---
 brel/parsers/XHMTL/elements/parse_non_fraction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 3894f48..1904643 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -218,10 +218,12 @@ def parse_non_fraction_fact_element(
     validate_descendant_non_fraction_rules(fact_element, error_repository)
 
     fact_value = fact_element.text or ""
-    if xsi_nil == "true" or not (has_text or has_children):
+    if xsi_nil == "true":
         fact_value = ""
     elif has_text:
         fact_value = process_non_fraction_value(fact_element, error_repository)
+    elif not has_children:
+        fact_value = ""
     else:
         if len(element_children) > 1:
             error_repository.insert(
-- 
2.43.0


From 6242d24b126f1f50022b5bffdb8dfa48fa0b8db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:16 +0000
Subject: [PATCH 22/78] fix: a footnote network of an inline document carries
 its link role

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 08dd913..ccfa02a 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -349,7 +349,7 @@ def build_footnote_networks(
         network_arcs[linkrole, arcrole].append(arc)
 
     networks: List[FootnoteNetwork] = []
-    for (_, linkrole), arcs in network_arcs.items():
+    for (linkrole, _), arcs in network_arcs.items():
         network = build_footnote_network(arcs, linkrole, footnotes, fact_repository)
         networks.append(network)
 
-- 
2.43.0


From 7b481a2c883992aedbe0c401747271c520584f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:28 +0000
Subject: [PATCH 23/78] fix: the aspect of an explicit dimension is created
 once

---
 .../parsers/XML/characteristics/xml_parse_explicit_dimension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index b75f1ec..5e67983 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -48,7 +48,7 @@ def parse_explicit_dimension_from_xml(
     error_repository = filing_context.get_error_repository()
 
     aspect_id = get_str_attribute(xml_element, "dimension")
-    if not characteristic_repository.has(aspect_id, ExplicitDimensionCharacteristic):
+    if not aspect_repository.has(aspect_id):
         aspect_repository.upsert(Aspect(aspect_id, []))
 
     aspect = aspect_repository.get(aspect_id)
-- 
2.43.0


From d2a8619c3a96b9c219fb347b06e55219a07619f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:42 +0000
Subject: [PATCH 24/78] fix: a date with an overlong number is reported as
 invalid

---
 brel/characteristics/period_characteristic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/characteristics/period_characteristic.py b/brel/characteristics/period_characteristic.py
index 55b290c..d11b1b6 100644
--- a/brel/characteristics/period_characteristic.py
+++ b/brel/characteristics/period_characteristic.py
@@ -127,7 +127,7 @@ class PeriodCharacteristic(ICharacteristic):
         try:
             dateutil.parser.parse(date)
             return True
-        except ValueError:
+        except (ValueError, OverflowError):
             return False
 
     @classmethod
-- 
2.43.0


From 0e5b187521d7901ac3ea51fea61e5cc3b7b4f0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 25/78] fix: networks and their nodes are built in document
 order

---
 .../XML/networks/xml_extended_link_parser.py  | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 579f7a0..9b8670a 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -116,9 +116,9 @@ def parse_xml_link(
 
     for network_factory in network_factories:
         nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
-        edges: set[tuple[str, str, str]] = set()
+        edges: dict[tuple[str, str, str], None] = {}
         node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
-        roots: set[INetworkNode] = set()
+        roots: list[INetworkNode] = []
 
         for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
             arc_from = get_str_attribute(arc_element, "xlink:from")
@@ -134,7 +134,7 @@ def parse_xml_link(
                 )
                 continue
 
-            edges.add((arc_from, arc_to, arc_role))
+            edges[(arc_from, arc_to, arc_role)] = None
             node_to_arcs[arc_from].append(arc_element)
             node_to_arcs[arc_to].append(arc_element)
 
@@ -176,18 +176,20 @@ def parse_xml_link(
                     if node is None:
                         continue
 
-                    roots.add(node)
+                    roots.append(node)
                     nodes_lookup[label].append(node)
                 else:
-                    outgoing_role_types = set(
+                    outgoing_role_types = [
                         get_str_attribute(arc, "xlink:arcrole") for arc in arcs_from
-                    )
+                    ]
 
-                    incoming_role_types = set(
+                    incoming_role_types = [
                         get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to
-                    )
+                    ]
 
-                    for role_type in incoming_role_types.union(outgoing_role_types):
+                    for role_type in dict.fromkeys(
+                        incoming_role_types + outgoing_role_types
+                    ):
                         node_arcs.sort(
                             key=lambda arc: get_str_attribute(arc, "xlink:to") == label,
                             reverse=True,
@@ -214,7 +216,7 @@ def parse_xml_link(
                             continue
 
                         if role_type not in incoming_role_types:
-                            roots.add(node)
+                            roots.append(node)
                         nodes_lookup[label].append(node)
 
             else:
@@ -230,7 +232,7 @@ def parse_xml_link(
                     if node is None:
                         continue
 
-                    roots.add(node)
+                    roots.append(node)
                     nodes_lookup[label].append(node)
                 else:
                     arc = arcs_to[0] if len(arcs_to) > 0 else arcs_from[0]
@@ -243,7 +245,7 @@ def parse_xml_link(
                         continue
 
                     if len(arcs_to) == 0:
-                        roots.add(node)
+                        roots.append(node)
                     nodes_lookup[label].append(node)
 
         # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
@@ -270,7 +272,7 @@ def parse_xml_link(
             continue
 
         if network_factory.is_physical():
-            role_types = set(node.get_arc_role() for node in roots)
+            role_types = dict.fromkeys(node.get_arc_role() for node in roots)
             for role_type in role_types:
                 role_type_roots = [
                     node for node in roots if node.get_arc_role() == role_type
-- 
2.43.0


From b5e81ec091a08934771408d2bedebad10d1bccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 26/78] fix: referenced documents are loaded in the order in
 which they are referenced

---
 brel/services/xml/xml_service.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index d862758..53e8931 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -83,8 +83,8 @@ class XMLService:
             for reference_uri in self.__extract_references(file.read()):
                 self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
-    def __extract_references(self, content: bytes) -> set[str]:
-        reference_uris: set[str] = set()
+    def __extract_references(self, content: bytes) -> list[str]:
+        reference_uris: dict[str, None] = {}
         reference_pattern = re.compile(
             r":href=['\"]([^'\"]+)['\"]|schemaLocation=['\"]([^'\"]+)['\"]"
         )
@@ -98,15 +98,15 @@ class XMLService:
                     href_uri = href
 
                 if href_uri:
-                    reference_uris.add(href_uri)
+                    reference_uris[href_uri] = None
 
             schema_location = match.group(2)
             if schema_location:
                 # get only last part, as there can be 2 links, only the second of which is relevant in our case.
                 schema_location = schema_location.split()[-1]
-                reference_uris.add(schema_location)
+                reference_uris[schema_location] = None
 
-        return reference_uris
+        return list(reference_uris)
 
     def has_etree(self, uri: str) -> bool:
         return self.__xml_repository.has_etree(uri)
-- 
2.43.0


From 01dd741799d957f309d0ea9bbcb7ac5ebe33178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 27/78] fix: the languages of a filing are listed in document
 order

---
 brel/services/xml/xml_service.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 53e8931..9288860 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -9,7 +9,7 @@
 """
 
 import re
-from typing import List, Optional, Set
+from typing import List, Optional
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
 import urllib
@@ -119,19 +119,17 @@ class XMLService:
 
     def get_available_filing_languages(self) -> List[str]:
         if self.__available_filing_languages is None:
-            all_languages: Set[str] = set()
+            all_languages: dict[str, None] = {}
             for tree in self.get_all_etrees():
                 elements_with_lang = tree.findall(
                     "//*[@xml:lang]", {"xml": "http://www.w3.org/XML/1998/namespace"}
                 )
 
-                tree_languages = set(
-                    get_str_attribute(element_with_lang, "xml:lang")
+                all_languages.update(
+                    (get_str_attribute(element_with_lang, "xml:lang"), None)
                     for element_with_lang in elements_with_lang
                 )
 
-                all_languages = all_languages.union(tree_languages)
-
             self.__available_filing_languages = list(all_languages)
 
         return self.__available_filing_languages
-- 
2.43.0


From 07dfc9e04a2d31fcd9d069fcd70b7c693f0a9ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 28/78] fix: all nodes of a network are listed in network
 order, also if it has cycles

---
 brel/networks/i_network.py      | 21 +++++++--------------
 brel/networks/i_network_node.py |  9 ++++++---
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/brel/networks/i_network.py b/brel/networks/i_network.py
index fc8f0ac..0d70b16 100644
--- a/brel/networks/i_network.py
+++ b/brel/networks/i_network.py
@@ -23,7 +23,7 @@ They are all implemented in the same way as the calculation network and can be i
 """
 
 from abc import ABC
-from typing import Any, Dict, Set
+from typing import Any, Dict
 
 from brel import QName
 from brel.networks import INetworkNode
@@ -93,8 +93,7 @@ class INetwork(ABC):
         Get all the arc roles that are used by nodes in the network
         :returns list[str]: list of all arc roles that are used by nodes in the network
         """
-        arc_role_set = set([node.get_arc_role() for node in self.get_all_nodes()])
-        return list(arc_role_set)
+        return list(dict.fromkeys(node.get_arc_role() for node in self.get_all_nodes()))
 
     def get_arc_name(self) -> QName | None:
         """
@@ -125,21 +124,15 @@ class INetwork(ABC):
         :returns list[NetworkNode]: containing all nodes in the network
         """
 
-        # create a set to store all nodes in
-        nodes: Set[INetworkNode] = set()
+        # collect all nodes in the order in which they appear in the network
+        nodes: Dict[INetworkNode, None] = {}
 
-        # recursive function to add all children of a node to the nodes set
-        def add_children(node: INetworkNode) -> None:
-            nodes.add(node)
-            for child in node.get_children():
-                add_children(child)
-
-        # add all children of the root node to the nodes set
+        # add the descendants (including the root itself) of every root
         roots: list[INetworkNode] = self.get_roots()
         for root in roots:
-            add_children(root)
+            for node in root.get_all_descendants():
+                nodes[node] = None
 
-        # return the nodes set as a list
         return list(nodes)
 
     def convert_to_dict(self) -> Dict[str, Any]:
diff --git a/brel/networks/i_network_node.py b/brel/networks/i_network_node.py
index cbd829f..557ba20 100644
--- a/brel/networks/i_network_node.py
+++ b/brel/networks/i_network_node.py
@@ -126,12 +126,15 @@ class INetworkNode(ABC):
         Returns all descendants of the current node
         :returns list[NetworkNode]: list containing all descendants of this node
         """
-        descendants = set()
+        descendants: Dict["INetworkNode", None] = {}
         worklist: list["INetworkNode"] = [self]
         while len(worklist) > 0:
             node = worklist.pop()
-            descendants.add(node)
-            worklist.extend(node.get_children())
+            if node in descendants:
+                continue
+
+            descendants[node] = None
+            worklist.extend(reversed(node.get_children()))
 
         return list(descendants)
 
-- 
2.43.0


From 6db6e9f0acaf42f03bf08c2ac1aefab12bee7c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 29/78] fix: inline footnote networks are built in document
 order

---
 .../networks/xhtml_parse_footnote_network.py  | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index ccfa02a..08af511 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -100,7 +100,7 @@ def parse_footnotes(
 
 def parse_relationship_from_and_to_refs(
     relationship_element: _Element, error_repository: ErrorRepository
-) -> Tuple[Set[str], Set[str]]:
+) -> Tuple[List[str], List[str]]:
     fromRefs = get_str_attribute_optional(relationship_element, "fromRefs")
     if not fromRefs:
         error_repository.insert(
@@ -117,15 +117,16 @@ def parse_relationship_from_and_to_refs(
         )
         toRefs = ""
 
-    fromIds, toIds = set(fromRefs.split()), set(toRefs.split())
+    fromIds = list(dict.fromkeys(fromRefs.split()))
+    toIds = list(dict.fromkeys(toRefs.split()))
 
     return fromIds, toIds
 
 
 def validate_relationship_from_and_to_refs(
     relationship_element: _Element,
-    fromIds: Set[str],
-    toIds: Set[str],
+    fromIds: List[str],
+    toIds: List[str],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
@@ -223,7 +224,7 @@ def parse_relationship(
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
     error_repository: ErrorRepository,
-) -> Optional[Tuple[Set[str], Set[str], str, str, float]]:
+) -> Optional[Tuple[List[str], List[str], str, str, float]]:
     fromIds, toIds = parse_relationship_from_and_to_refs(
         relationship_element, error_repository
     )
@@ -245,20 +246,20 @@ def parse_relationship(
 
 
 def create_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ):
-    all_ids = set()
-    internal_ids = set()
+    all_ids: Dict[str, None] = {}
+    internal_ids: Set[str] = set()
 
     # Compute Ids of root nodes
     for from_ids, to_ids, _, _, _ in arcs:
-        all_ids.update(from_ids)
-        all_ids.update(to_ids)
+        all_ids.update(dict.fromkeys(from_ids))
+        all_ids.update(dict.fromkeys(to_ids))
         internal_ids.update(to_ids)
 
-    root_ids = all_ids - internal_ids
+    root_ids = [id for id in all_ids if id not in internal_ids]
 
     id_to_node: Dict[str, FootnoteNetworkNode] = {}
 
@@ -307,7 +308,7 @@ def create_footnote_network_nodes(
 
 
 def connect_footnote_network_nodes(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     id_to_node: Dict[str, FootnoteNetworkNode],
 ):
     for from_ids, to_ids, _, _, _ in arcs:
@@ -321,7 +322,7 @@ def connect_footnote_network_nodes(
 
 
 def build_footnote_network(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     linkrole: str,
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
@@ -335,12 +336,12 @@ def build_footnote_network(
 
 
 def build_footnote_networks(
-    arcs: List[Tuple[Set[str], Set[str], str, str, float]],
+    arcs: List[Tuple[List[str], List[str], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> List[FootnoteNetwork]:
     network_arcs: Dict[
-        Tuple[str, str], List[Tuple[Set[str], Set[str], str, str, float]]
+        Tuple[str, str], List[Tuple[List[str], List[str], str, str, float]]
     ] = defaultdict(list)
 
     # Group arcs by linkrole and arcrole
-- 
2.43.0


From 8a6e52dc49800130b8441e3af2c667223b22dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 30/78] fix: the files of a folder are read in a fixed order

---
 brel/parsers/path_loaders/folder_path_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/path_loaders/folder_path_loader.py b/brel/parsers/path_loaders/folder_path_loader.py
index 2ebb8ac..b343e71 100644
--- a/brel/parsers/path_loaders/folder_path_loader.py
+++ b/brel/parsers/path_loaders/folder_path_loader.py
@@ -35,7 +35,7 @@ class FolderPathLoader(PathLoader):
 
         path_parts = path.split(splitting_char)
         files_and_folders = [
-            "/".join(path_parts + [dir_item]) for dir_item in os.listdir(path)
+            "/".join(path_parts + [dir_item]) for dir_item in sorted(os.listdir(path))
         ]
 
         files = [
-- 
2.43.0


From 09ad53b42284242ec5b3c79f82fe621e52af5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 31/78] fix: report elements matching a name are found in the
 order of the namespaces

---
 .../report_element/report_element_service.py  | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/brel/services/report_element/report_element_service.py b/brel/services/report_element/report_element_service.py
index 23d6155..4fad5c5 100644
--- a/brel/services/report_element/report_element_service.py
+++ b/brel/services/report_element/report_element_service.py
@@ -27,20 +27,20 @@ class ReportElementService:
     def get_fuzzy_typed[
         T: IReportElement
     ](self, search_params: QNameSearchParams, report_element_type: type[T],) -> list[T]:
-        uri_candidates: set[str] = set()
+        uri_candidates: dict[str, None] = {}
         if search_params.uri:
-            uri_candidates.add(search_params.uri)
+            uri_candidates[search_params.uri] = None
 
-        prefix_candidates: set[str] = set()
+        prefix_candidates: dict[str, None] = {}
         if search_params.prefix:
-            prefix_candidates.add(search_params.prefix)
+            prefix_candidates[search_params.prefix] = None
 
         if search_params.uri and not search_params.prefix:
-            prefix_candidates = set(
+            prefix_candidates = dict.fromkeys(
                 self.__namespace_repository.get_prefixes(search_params.uri)
             )
         elif not search_params.uri and search_params.prefix:
-            uri_candidates = set(
+            uri_candidates = dict.fromkeys(
                 self.__namespace_repository.get_uris(search_params.prefix)
             )
 
@@ -79,20 +79,20 @@ class ReportElementService:
 
     def get_fuzzy(self, search_params: QNameSearchParams) -> list[IReportElement]:
         # TODO schmidi replace with call to find_typed and make typechecker happy somehow
-        uri_candidates: set[str] = set()
+        uri_candidates: dict[str, None] = {}
         if search_params.uri:
-            uri_candidates.add(search_params.uri)
+            uri_candidates[search_params.uri] = None
 
-        prefix_candidates: set[str] = set()
+        prefix_candidates: dict[str, None] = {}
         if search_params.prefix:
-            prefix_candidates.add(search_params.prefix)
+            prefix_candidates[search_params.prefix] = None
 
         if search_params.uri and not search_params.prefix:
-            prefix_candidates = set(
+            prefix_candidates = dict.fromkeys(
                 self.__namespace_repository.get_prefixes(search_params.uri)
             )
         elif not search_params.uri and search_params.prefix:
-            uri_candidates = set(
+            uri_candidates = dict.fromkeys(
                 self.__namespace_repository.get_uris(search_params.prefix)
             )
 
-- 
2.43.0


From 939d171e816480e445c3cb05e43f43236fc25463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 32/78] fix: unused continuations are reported in document
 order

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 20504bc..83eec8a 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -109,9 +109,9 @@ def create_continuation_chains(
                         parent_id=get_str_attribute_optional(element, "id"),
                     )
 
-    unused_continuation_elements = list(
-        set(continuation_element_index.keys()) - used_continuation_ids
-    )
+    unused_continuation_elements = [
+        id for id in continuation_element_index if id not in used_continuation_ids
+    ]
     if len(unused_continuation_elements) > 0:
         error_repository.insert(
             ErrorCode.IXBRL_UNUSED_CONTINUATION_ELEMENTS,
-- 
2.43.0


From ab6ab16aa25f475b1585e5a0fcf34934255ee68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 33/78] fix: columns of printed facts do not depend on hashes

---
 brel/utils/print_facts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/utils/print_facts.py b/brel/utils/print_facts.py
index 5fdccd9..c725f9b 100644
--- a/brel/utils/print_facts.py
+++ b/brel/utils/print_facts.py
@@ -22,11 +22,11 @@ def pprint_facts(facts: list[Fact]):
     """
 
     # first extract all the dimensions from the facts
-    dimension_set = set()
+    dimension_set: dict[Aspect, None] = {}
     for fact in facts:
         context = fact.get_context()
         for aspect in context.get_aspects():
-            dimension_set.add(aspect)
+            dimension_set[aspect] = None
 
     dimensions = list(dimension_set)
 
-- 
2.43.0


From 4f68113b31fe23738e60f0ff8f2457592eb722be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:03 +0000
Subject: [PATCH 34/78] fix: namespaces and prefixes are listed in the order in
 which they were added

---
 .../namespace/in_memory_namespace_repository.py  | 16 ++++++++--------
 brel/data/namespace/namespace_repository.py      |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/brel/data/namespace/in_memory_namespace_repository.py b/brel/data/namespace/in_memory_namespace_repository.py
index 163af0a..685fdb9 100644
--- a/brel/data/namespace/in_memory_namespace_repository.py
+++ b/brel/data/namespace/in_memory_namespace_repository.py
@@ -14,15 +14,15 @@ from brel.data.namespace.namespace_repository import NamespaceRepository
 
 class InMemoryNamespaceRepository(NamespaceRepository):
     def __init__(self) -> None:
-        self.__prefix_to_url: dict[str, set[str]] = defaultdict(set)
-        self.__uri_to_prefix: dict[str, set[str]] = defaultdict(set)
+        self.__prefix_to_url: dict[str, dict[str, None]] = defaultdict(dict)
+        self.__uri_to_prefix: dict[str, dict[str, None]] = defaultdict(dict)
 
     def upsert(self, prefix: str, uri: str) -> None:
-        self.__prefix_to_url[prefix].add(uri)
-        self.__uri_to_prefix[uri].add(prefix)
+        self.__prefix_to_url[prefix][uri] = None
+        self.__uri_to_prefix[uri][prefix] = None
 
-    def get_uris(self, prefix: str) -> set[str]:
-        return set(self.__prefix_to_url.get(prefix, set()))
+    def get_uris(self, prefix: str) -> list[str]:
+        return list(self.__prefix_to_url.get(prefix, {}))
 
-    def get_prefixes(self, uri: str) -> set[str]:
-        return set(self.__uri_to_prefix.get(uri, set()))
+    def get_prefixes(self, uri: str) -> list[str]:
+        return list(self.__uri_to_prefix.get(uri, {}))
diff --git a/brel/data/namespace/namespace_repository.py b/brel/data/namespace/namespace_repository.py
index 1419092..a39eefd 100644
--- a/brel/data/namespace/namespace_repository.py
+++ b/brel/data/namespace/namespace_repository.py
@@ -18,11 +18,11 @@ class NamespaceRepository(ABC):
         pass
 
     @abstractmethod
-    def get_uris(self, prefix: str) -> set[str]:
+    def get_uris(self, prefix: str) -> list[str]:
         """Get the URL for a given prefix."""
         pass
 
     @abstractmethod
-    def get_prefixes(self, uri: str) -> set[str]:
+    def get_prefixes(self, uri: str) -> list[str]:
         """Get the prefix for a given URL."""
         pass
-- 
2.43.0


From afc1abeece8f25ca6c328c74b6316263ef3506d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:03 +0000
Subject: [PATCH 35/78] fix: the namespace chosen for a prefix does not depend
 on hashes

---
 brel/parsers/XML/xml_namespace_normalizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_namespace_normalizer.py b/brel/parsers/XML/xml_namespace_normalizer.py
index 5d71221..72ce21d 100644
--- a/brel/parsers/XML/xml_namespace_normalizer.py
+++ b/brel/parsers/XML/xml_namespace_normalizer.py
@@ -276,15 +276,15 @@ def normalize_nsmap(
     :returns dict: A dictionary containing the normalized namespace mapping and the redirects.
     """
     # compute all components by grouping the urls by their unversioned uri
-    components: dict[str, tuple[set[str], set[str]]] = defaultdict(
-        lambda: (set(), set())
+    components: dict[str, tuple[dict[str, None], dict[str, None]]] = defaultdict(
+        lambda: ({}, {})
     )
     for namespace_mapping in namespace_mappings:
         for prefix, uri in namespace_mapping.items():
             if prefix is not None:
                 unversioned_uri = url_remove_version(uri)
-                components[unversioned_uri][0].add(uri)
-                components[unversioned_uri][1].add(prefix)
+                components[unversioned_uri][0][uri] = None
+                components[unversioned_uri][1][prefix] = None
 
     if DEBUG:  # pragma: no cover
         print(f"Found components:")
-- 
2.43.0


From 20e2dd8754ebd51b51c8fd76c6ee9f7141f19296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 36/78] fix: definition arcs keep their order as it is and
 default to 1 like all others

---
 .../XML/networks/xml_definition_network_factory.py        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_definition_network_factory.py b/brel/parsers/XML/networks/xml_definition_network_factory.py
index 2a67a3d..bb82c39 100644
--- a/brel/parsers/XML/networks/xml_definition_network_factory.py
+++ b/brel/parsers/XML/networks/xml_definition_network_factory.py
@@ -72,7 +72,7 @@ class PhysicalDefinitionNetworkFactory(IXMLNetworkFactory):
         elif get_str_attribute(xml_arc, "xlink:to", None) == label:
             # the node is an inner node
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0)
+            order = float(xml_arc.attrib.get("order") or 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
@@ -136,15 +136,15 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
         if xml_arc is None:
             # the node is not connected to any other node
             arc_role = "unknown"
-            order = 0
+            order = 0.0
             arc_qname = qname_from_str("link:unknown", xml_link)
         elif get_str_attribute(xml_arc, "xlink:from") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = 0
+            order = 0.0
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:to") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0).__round__()
+            order = float(xml_arc.attrib.get("order") or 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
-- 
2.43.0


From 6150a69180a350374aa72d95f4ad12b06682b7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 37/78] fix: the root of a footnote network has the name of its
 arc

---
 brel/parsers/XML/networks/xml_footnote_network_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XML/networks/xml_footnote_network_factory.py b/brel/parsers/XML/networks/xml_footnote_network_factory.py
index c00247a..b7338e4 100644
--- a/brel/parsers/XML/networks/xml_footnote_network_factory.py
+++ b/brel/parsers/XML/networks/xml_footnote_network_factory.py
@@ -82,7 +82,7 @@ class FootnoteNetworkFactory(IXMLNetworkFactory):
                 xml_arc, to_namespace_localname_notation("xlink", "arcrole")
             )
             order = 1.0
-            arc_qname = qname_from_str("link:unknown", xml_referenced_element)
+            arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif (
             get_str_attribute(
                 xml_arc, to_namespace_localname_notation("xlink", "to"), None
-- 
2.43.0


From 2ee26e257b0715866fe5986f258a11578bf3a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 38/78] fix: label arcs keep their order and labels are
 arranged by it

---
 brel/networks/label_network_node.py                    | 7 +++++--
 brel/parsers/XML/networks/xml_label_network_factory.py | 7 ++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/brel/networks/label_network_node.py b/brel/networks/label_network_node.py
index d771606..f9050ab 100644
--- a/brel/networks/label_network_node.py
+++ b/brel/networks/label_network_node.py
@@ -34,12 +34,14 @@ class LabelNetworkNode(INetworkNode):
         arc_name: QName,
         link_role: str,
         link_name: QName,
+        order: float = 1,
     ) -> None:
         self.__points_to = points_to
         self.__arc_role = arc_role
         self.__arc_name = arc_name
         self.__link_role = link_role
         self.__link_name = link_name
+        self.__order = order
         self.__children: list[INetworkNode] = []
 
     # First class citizens
@@ -70,8 +72,8 @@ class LabelNetworkNode(INetworkNode):
     def get_children(self) -> list[INetworkNode]:
         return list(self.__children)
 
-    def get_order(self) -> int:
-        return 1
+    def get_order(self) -> float:
+        return self.__order
 
     def get_arc_role(self) -> str:
         return self.__arc_role
@@ -92,3 +94,4 @@ class LabelNetworkNode(INetworkNode):
         :param child: INetworkNode to be added as a child
         """
         self.__children.append(child)
+        self.__children.sort(key=lambda node: node.get_order())
diff --git a/brel/parsers/XML/networks/xml_label_network_factory.py b/brel/parsers/XML/networks/xml_label_network_factory.py
index 80f489d..3442a8a 100644
--- a/brel/parsers/XML/networks/xml_label_network_factory.py
+++ b/brel/parsers/XML/networks/xml_label_network_factory.py
@@ -64,14 +64,17 @@ class LabelNetworkFactory(IXMLNetworkFactory):
         if xml_arc is None:
             # the node is not connected to any other node
             arc_role = "unknown"
+            order = 1.0
             arc_qname = qname_from_str("link:unknown", xml_link)
         elif get_str_attribute(xml_arc, "xlink:from") == label:
             # the node is a root
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
+            order = 1.0
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:to", None) == label:
             # the node is an inner node
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
+            order = float(xml_arc.attrib.get("order") or 1)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
@@ -88,7 +91,9 @@ class LabelNetworkFactory(IXMLNetworkFactory):
                 f"'points_to' must be of type BrelLabel or IReportElement, not {type(points_to)}"
             )
 
-        return LabelNetworkNode(points_to, arc_role, arc_qname, link_role, link_name)
+        return LabelNetworkNode(
+            points_to, arc_role, arc_qname, link_role, link_name, order
+        )
 
     def update_report_elements(
         self, report_element_repository: ReportElementRepository, network: INetwork
-- 
2.43.0


From ac60f995335575d84b72702b3d6590d4c5308d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:25 +0000
Subject: [PATCH 39/78] fix: every arc gets a network node of its own, with its
 own order and weight

---
 .../XML/networks/xml_extended_link_parser.py  | 93 +++++++++++--------
 1 file changed, 53 insertions(+), 40 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 9b8670a..61e339d 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -85,6 +85,14 @@ def get_object_from_reference(
     return locator_target_element
 
 
+def get_edge(arc: lxml.etree._Element) -> tuple[str, str, str]:  # type: ignore
+    return (
+        get_str_attribute(arc, "xlink:from"),
+        get_str_attribute(arc, "xlink:to"),
+        get_str_attribute(arc, "xlink:arcrole"),
+    )
+
+
 def parse_xml_link(
     context: FilingContext,
     xml_link_element: lxml.etree._Element,  # type: ignore
@@ -116,14 +124,13 @@ def parse_xml_link(
 
     for network_factory in network_factories:
         nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
+        arc_targets: dict[tuple[str, str, str], list[INetworkNode]] = defaultdict(list)
         edges: dict[tuple[str, str, str], None] = {}
         node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
         roots: list[INetworkNode] = []
 
         for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
-            arc_from = get_str_attribute(arc_element, "xlink:from")
-            arc_to = get_str_attribute(arc_element, "xlink:to")
-            arc_role = get_str_attribute(arc_element, "xlink:arcrole")
+            arc_from, arc_to, arc_role = get_edge(arc_element)
 
             if (arc_from, arc_to, arc_role) in edges:
                 error_repository.insert(
@@ -195,29 +202,32 @@ def parse_xml_link(
                             reverse=True,
                         )
 
-                        arc = next(
-                            (
-                                arc
-                                for arc in node_arcs
-                                if get_str_attribute(arc, "xlink:arcrole") == role_type
-                            ),
-                            None,
-                        )
-
-                        node = network_factory.create_node(
-                            xml_link_element,
-                            link_element,
-                            arc,
-                            to_object,
-                            error_repository,
-                        )
-
-                        if node is None:
-                            continue
-
-                        if role_type not in incoming_role_types:
-                            roots.append(node)
-                        nodes_lookup[label].append(node)
+                        role_arcs = [
+                            arc
+                            for arc in node_arcs
+                            if get_str_attribute(arc, "xlink:arcrole") == role_type
+                        ]
+
+                        # one node per incoming arc, since each arc has its own order
+                        for arc in [a for a in arcs_to if a in role_arcs] or role_arcs[
+                            :1
+                        ]:
+                            node = network_factory.create_node(
+                                xml_link_element,
+                                link_element,
+                                arc,
+                                to_object,
+                                error_repository,
+                            )
+
+                            if node is None:
+                                continue
+
+                            if role_type not in incoming_role_types:
+                                roots.append(node)
+                            else:
+                                arc_targets[get_edge(arc)].append(node)
+                            nodes_lookup[label].append(node)
 
             else:
                 if len(arcs_to) == 0 and len(arcs_from) == 0:
@@ -235,31 +245,34 @@ def parse_xml_link(
                     roots.append(node)
                     nodes_lookup[label].append(node)
                 else:
-                    arc = arcs_to[0] if len(arcs_to) > 0 else arcs_from[0]
-
-                    node = network_factory.create_node(
-                        xml_link_element, link_element, arc, to_object, error_repository
-                    )
+                    # one node per incoming arc, since each arc has its own order
+                    for arc in arcs_to or arcs_from[:1]:
+                        node = network_factory.create_node(
+                            xml_link_element,
+                            link_element,
+                            arc,
+                            to_object,
+                            error_repository,
+                        )
 
-                    if node is None:
-                        continue
+                        if node is None:
+                            continue
 
-                    if len(arcs_to) == 0:
-                        roots.append(node)
-                    nodes_lookup[label].append(node)
+                        if len(arcs_to) == 0:
+                            roots.append(node)
+                        else:
+                            arc_targets[get_edge(arc)].append(node)
+                        nodes_lookup[label].append(node)
 
         # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
         for arc_from, arc_to, arc_role in edges:
             from_nodes = nodes_lookup[arc_from]
-            to_nodes = nodes_lookup[arc_to]
+            to_nodes = arc_targets[(arc_from, arc_to, arc_role)]
 
             if network_factory.is_physical():
                 from_nodes = list(
                     filter(lambda node: node.get_arc_role() == arc_role, from_nodes)
                 )
-                to_nodes = list(
-                    filter(lambda node: node.get_arc_role() == arc_role, to_nodes)
-                )
 
             for from_node, to_node in itertools.product(from_nodes, to_nodes):
                 # Now we can link the nodes
-- 
2.43.0


From a38736dcf6bf34c0727c2396aeb4562135590048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:25 +0000
Subject: [PATCH 40/78] fix: every footnote relationship keeps its own order

---
 .../networks/xhtml_parse_footnote_network.py  | 50 +++++++++++--------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 08af511..80d5634 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -261,27 +261,31 @@ def create_footnote_network_nodes(
 
     root_ids = [id for id in all_ids if id not in internal_ids]
 
-    id_to_node: Dict[str, FootnoteNetworkNode] = {}
+    id_to_nodes: Dict[str, List[FootnoteNetworkNode]] = defaultdict(list)
+    arc_targets: Dict[Tuple[int, str], FootnoteNetworkNode] = {}
 
-    for from_ids, to_ids, arcrole, linkrole, order in arcs:
+    for index, (from_ids, to_ids, arcrole, linkrole, order) in enumerate(arcs):
         for from_id in from_ids:
-            if from_id not in id_to_node and from_id in root_ids:
+            if from_id not in id_to_nodes and from_id in root_ids:
                 from_object = fact_repository.get_by_id_optional(from_id)
 
                 if from_object is None:
                     continue
 
-                id_to_node[from_id] = FootnoteNetworkNode(
-                    from_object,
-                    [],
-                    arcrole,
-                    qname.FOOTNOTE_NETWORK_ARCNAME,
-                    linkrole,
-                    qname.FOOTNOTE_NETWORK_LINKNAME,
+                id_to_nodes[from_id].append(
+                    FootnoteNetworkNode(
+                        from_object,
+                        [],
+                        arcrole,
+                        qname.FOOTNOTE_NETWORK_ARCNAME,
+                        linkrole,
+                        qname.FOOTNOTE_NETWORK_LINKNAME,
+                    )
                 )
 
+        # one node per arc and target, since each arc has its own order
         for to_id in to_ids:
-            if to_id not in id_to_node:
+            if (index, to_id) not in arc_targets:
                 to_object = (
                     footnotes[to_id]
                     if to_id in footnotes
@@ -292,7 +296,7 @@ def create_footnote_network_nodes(
                     # Error
                     continue
 
-                id_to_node[to_id] = FootnoteNetworkNode(
+                arc_targets[index, to_id] = FootnoteNetworkNode(
                     to_object,
                     [],
                     arcrole,
@@ -301,24 +305,26 @@ def create_footnote_network_nodes(
                     qname.FOOTNOTE_NETWORK_LINKNAME,
                     order,
                 )
+                id_to_nodes[to_id].append(arc_targets[index, to_id])
 
-    root_nodes = [id_to_node[id] for id in root_ids if id in id_to_node]
+    root_nodes = [id_to_nodes[id][0] for id in root_ids if id in id_to_nodes]
 
-    return id_to_node, root_nodes
+    return id_to_nodes, arc_targets, root_nodes
 
 
 def connect_footnote_network_nodes(
     arcs: List[Tuple[List[str], List[str], str, str, float]],
-    id_to_node: Dict[str, FootnoteNetworkNode],
+    id_to_nodes: Dict[str, List[FootnoteNetworkNode]],
+    arc_targets: Dict[Tuple[int, str], FootnoteNetworkNode],
 ):
-    for from_ids, to_ids, _, _, _ in arcs:
+    for index, (from_ids, to_ids, _, _, _) in enumerate(arcs):
         for from_id, to_id in itertools.product(from_ids, to_ids):
-            if from_id not in id_to_node or to_id not in id_to_node:
+            if from_id not in id_to_nodes or (index, to_id) not in arc_targets:
                 continue
 
-            from_node = id_to_node[from_id]
-            to_node = id_to_node[to_id]
-            from_node._add_child(to_node)
+            to_node = arc_targets[index, to_id]
+            for from_node in id_to_nodes[from_id]:
+                from_node._add_child(to_node)
 
 
 def build_footnote_network(
@@ -327,10 +333,10 @@ def build_footnote_network(
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
 ) -> FootnoteNetwork:
-    id_to_node, root_nodes = create_footnote_network_nodes(
+    id_to_nodes, arc_targets, root_nodes = create_footnote_network_nodes(
         arcs, footnotes, fact_repository
     )
-    connect_footnote_network_nodes(arcs, id_to_node)
+    connect_footnote_network_nodes(arcs, id_to_nodes, arc_targets)
 
     return FootnoteNetwork(root_nodes, linkrole, qname.FOOTNOTE_NETWORK_LINKNAME, True)
 
-- 
2.43.0


From b36f1ff6617a94c7e75fc69645a364fad00154c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:42 +0000
Subject: [PATCH 41/78] fix: arcs and relationships that close a cycle are
 reported and ignored

---
 brel/errors/error_code.py                     |  1 +
 brel/errors/error_factory_registry.py         |  7 +++++
 .../networks/xhtml_parse_footnote_network.py  | 28 +++++++++++++++++--
 .../XML/networks/xml_extended_link_parser.py  | 16 +++++++++++
 brel/parsers/utils/network_utils.py           | 19 +++++++++++++
 5 files changed, 68 insertions(+), 3 deletions(-)

diff --git a/brel/errors/error_code.py b/brel/errors/error_code.py
index 1ef6a23..a5ee717 100644
--- a/brel/errors/error_code.py
+++ b/brel/errors/error_code.py
@@ -135,5 +135,6 @@ class ErrorCode(Enum):
         QNAME_NAMESPACE_NOT_IN_ELEMENT_SCOPE,
         QNAME_MISSING_NAMESPACE,
         UNAVAILABLE_REMOTE_FILE,
+        CYCLIC_LINKBASE_ARC,
         *rest,
     ) = range(1000)
diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index a470703..47e8700 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -745,6 +745,13 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "The arc going from '{arc_from}' to '{arc_to} is defined multiple times.",
         "Remove the duplicate arcs",
     ),
+    ErrorCode.CYCLIC_LINKBASE_ARC: lambda: ErrorInstance(
+        Severity.ERROR,
+        Area.GENERAL_LINKBASE,
+        "403",
+        "The arc going from '{arc_from}' to '{arc_to}' closes a cycle. It is ignored.",
+        "Remove the arc from the cycle.",
+    ),
     ErrorCode.MISSING_LINK_ROLE: lambda: ErrorInstance(
         Severity.ERROR,
         Area.GENERAL_LINKBASE,
diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 80d5634..ef42deb 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -21,6 +21,7 @@ from brel.parsers.utils.lxml_utils import (
     get_elem_lang_recursive,
     get_str_attribute_optional,
 )
+from brel.parsers.utils.network_utils import is_reachable
 from brel.parsers.utils.url_utils import is_valid_uri
 import brel.qnames.qname as qname
 from brel.resource.brel_footnote import BrelFootnote
@@ -316,12 +317,25 @@ def connect_footnote_network_nodes(
     arcs: List[Tuple[List[str], List[str], str, str, float]],
     id_to_nodes: Dict[str, List[FootnoteNetworkNode]],
     arc_targets: Dict[Tuple[int, str], FootnoteNetworkNode],
+    error_repository: ErrorRepository,
 ):
+    targets: Dict[str, List[str]] = defaultdict(list)
+
     for index, (from_ids, to_ids, _, _, _) in enumerate(arcs):
         for from_id, to_id in itertools.product(from_ids, to_ids):
             if from_id not in id_to_nodes or (index, to_id) not in arc_targets:
                 continue
 
+            if is_reachable(to_id, from_id, targets):
+                error_repository.insert(
+                    ErrorCode.CYCLIC_LINKBASE_ARC,
+                    None,
+                    arc_from=from_id,
+                    arc_to=to_id,
+                )
+                continue
+
+            targets[from_id].append(to_id)
             to_node = arc_targets[index, to_id]
             for from_node in id_to_nodes[from_id]:
                 from_node._add_child(to_node)
@@ -332,11 +346,14 @@ def build_footnote_network(
     linkrole: str,
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
+    error_repository: ErrorRepository,
 ) -> FootnoteNetwork:
     id_to_nodes, arc_targets, root_nodes = create_footnote_network_nodes(
         arcs, footnotes, fact_repository
     )
-    connect_footnote_network_nodes(arcs, id_to_nodes, arc_targets)
+    connect_footnote_network_nodes(
+        arcs, id_to_nodes, arc_targets, error_repository
+    )
 
     return FootnoteNetwork(root_nodes, linkrole, qname.FOOTNOTE_NETWORK_LINKNAME, True)
 
@@ -345,6 +362,7 @@ def build_footnote_networks(
     arcs: List[Tuple[List[str], List[str], str, str, float]],
     footnotes: Dict[str, BrelFootnote],
     fact_repository: FactRepository,
+    error_repository: ErrorRepository,
 ) -> List[FootnoteNetwork]:
     network_arcs: Dict[
         Tuple[str, str], List[Tuple[List[str], List[str], str, str, float]]
@@ -357,7 +375,9 @@ def build_footnote_networks(
 
     networks: List[FootnoteNetwork] = []
     for (linkrole, _), arcs in network_arcs.items():
-        network = build_footnote_network(arcs, linkrole, footnotes, fact_repository)
+        network = build_footnote_network(
+            arcs, linkrole, footnotes, fact_repository, error_repository
+        )
         networks.append(network)
 
     return networks
@@ -379,7 +399,9 @@ def parse_relationships(
         if relationship:
             arcs.append(relationship)
 
-    footnote_networks = build_footnote_networks(arcs, footnotes, fact_repository)
+    footnote_networks = build_footnote_networks(
+        arcs, footnotes, fact_repository, error_repository
+    )
     return footnote_networks
 
 
diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 61e339d..efdc302 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -37,6 +37,7 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute,
     get_clark_notation_tag,
 )
+from brel.parsers.utils.network_utils import is_reachable
 from brel.reportelements import *
 from brel.resource import *
 from brel.contexts.filing_context import FilingContext
@@ -126,6 +127,9 @@ def parse_xml_link(
         nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
         arc_targets: dict[tuple[str, str, str], list[INetworkNode]] = defaultdict(list)
         edges: dict[tuple[str, str, str], None] = {}
+        arc_targets_of: dict[Optional[str], dict[str, list[str]]] = defaultdict(
+            lambda: defaultdict(list)
+        )
         node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
         roots: list[INetworkNode] = []
 
@@ -141,6 +145,18 @@ def parse_xml_link(
                 )
                 continue
 
+            # the children of a node are those of all arcs, or of all arcs of one role
+            role = arc_role if network_factory.is_physical() else None
+            if is_reachable(arc_to, arc_from, arc_targets_of[role]):
+                error_repository.insert(
+                    ErrorCode.CYCLIC_LINKBASE_ARC,
+                    arc_element,
+                    arc_from=arc_from,
+                    arc_to=arc_to,
+                )
+                continue
+
+            arc_targets_of[role][arc_from].append(arc_to)
             edges[(arc_from, arc_to, arc_role)] = None
             node_to_arcs[arc_from].append(arc_element)
             node_to_arcs[arc_to].append(arc_element)
diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index 609bc29..9905e99 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -1,6 +1,7 @@
 from brel.networks import INetwork, INetworkNode
 
 # from brel.utils import pprint
+from collections.abc import Mapping
 from functools import cmp_to_key
 
 
@@ -28,6 +29,24 @@ def nodes_equal(self: INetworkNode, other: INetworkNode) -> bool:
         return False
 
 
+def is_reachable(start: str, end: str, targets: Mapping[str, list[str]]) -> bool:
+    """
+    :param targets: for each label, the labels its arcs lead to
+    :returns bool: True if there is a path (possibly empty) from start to end
+    """
+    visited: set[str] = set()
+    worklist = [start]
+    while len(worklist) > 0:
+        label = worklist.pop()
+        if label == end:
+            return True
+        if label not in visited:
+            visited.add(label)
+            worklist.extend(targets.get(label, []))
+
+    return False
+
+
 def combine_networks(networks: list[INetwork]) -> INetwork:
     """
     Combine a list of networks into one network.
-- 
2.43.0


From 780af1f654886e74e26a7f7cfdce960c25f351c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:31 +0000
Subject: [PATCH 42/78] fix: the exported description of a component names its
 definition network correctly

---
 brel/brel_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/brel_component.py b/brel/brel_component.py
index 6701391..c9e3c17 100644
--- a/brel/brel_component.py
+++ b/brel/brel_component.py
@@ -189,7 +189,7 @@ class Component:
                 "calculation-network": (
                     True if self.__calculation_network is not None else False
                 ),
-                "definintion-network": (
+                "definition-network": (
                     True if self.__definition_network is not None else False
                 ),
             }
-- 
2.43.0


From 9695a22e4bea0b14af3831e6f986186369f9c25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:22 +0000
Subject: [PATCH 43/78] fix: units of the same name with different measures are
 not equal

---
 brel/characteristics/unit_characteristic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brel/characteristics/unit_characteristic.py b/brel/characteristics/unit_characteristic.py
index 7838176..edd1f52 100644
--- a/brel/characteristics/unit_characteristic.py
+++ b/brel/characteristics/unit_characteristic.py
@@ -89,7 +89,11 @@ class UnitCharacteristic(ICharacteristic):
         if not isinstance(__value, UnitCharacteristic):
             return False
 
-        return self.__name == __value.__name
+        return (
+            self.__name == __value.__name
+            and self.__numerators == __value.__numerators
+            and self.__denominators == __value.__denominators
+        )
 
     def is_simple(self) -> bool:
         """
-- 
2.43.0


From 901f8769671cce3deb6066cfd482dad485b9a26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:22 +0000
Subject: [PATCH 44/78] fix: names are compared by namespace and local name,
 not by prefix

---
 brel/qnames/qname.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/qnames/qname.py b/brel/qnames/qname.py
index 15af6a9..6cde628 100644
--- a/brel/qnames/qname.py
+++ b/brel/qnames/qname.py
@@ -8,13 +8,13 @@
 ====================
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 
 @dataclass(frozen=True, eq=True)
 class QName:
     uri: str
-    prefix: str
+    prefix: str = field(compare=False)
     local_name: str
 
     def get_URL(self) -> str:
-- 
2.43.0


From d6cc5f6ed82d9ecfc5418420385e8d5900e01d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 45/78] fix: a name whose namespace has several prefixes is
 found once

---
 brel/services/report_element/report_element_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/services/report_element/report_element_service.py b/brel/services/report_element/report_element_service.py
index 4fad5c5..a9c8a47 100644
--- a/brel/services/report_element/report_element_service.py
+++ b/brel/services/report_element/report_element_service.py
@@ -45,7 +45,7 @@ class ReportElementService:
             )
 
         if uri_candidates or prefix_candidates:
-            qname_candidates = (
+            qname_candidates = dict.fromkeys(
                 QName(
                     uri,
                     prefix,
@@ -102,7 +102,7 @@ class ReportElementService:
                     self.__report_element_repository.get_by_qname,
                     filter(
                         lambda qname: self.__report_element_repository.has_qname(qname),
-                        [
+                        dict.fromkeys(
                             QName(
                                 uri,
                                 prefix,
@@ -110,7 +110,7 @@ class ReportElementService:
                             )
                             for uri in uri_candidates
                             for prefix in prefix_candidates
-                        ],
+                        ),
                     ),
                 )
             )
-- 
2.43.0


From 7a4657d8a32644374253bddb0ae93c9c37743bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:47 +0000
Subject: [PATCH 46/78] fix: a name given in Clark notation is read as such

---
 brel/qnames/qname_search_params.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/qnames/qname_search_params.py b/brel/qnames/qname_search_params.py
index 53daa7c..3ceb3da 100644
--- a/brel/qnames/qname_search_params.py
+++ b/brel/qnames/qname_search_params.py
@@ -23,7 +23,7 @@ class QNameSearchParams:
         """
         Check if the given string is in Clark notation.
         """
-        re_expression = r"^(?P<prefix>[^:]+):(?P<local_name>[^:]+)$"
+        re_expression = r"^\{(?P<uri>[^\}]+)\}(?P<local_name>[^\{]+)$"
         match = re.match(re_expression, clark_notation)
         return match is not None
 
@@ -32,16 +32,16 @@ class QNameSearchParams:
         """
         Create a QNameSearchParams object from a Clark notation string.
         """
-        re_expression = r"^(?P<prefix>[^:]+):(?P<local_name>[^:]+)$"
+        re_expression = r"^\{(?P<uri>[^\}]+)\}(?P<local_name>[^\{]+)$"
         match = re.match(re_expression, clark_notation)
         if not match:
             raise ValueError(
-                f"Invalid Clark notation: {clark_notation}. Expected format: prefix:local_name"
+                f"Invalid Clark notation: {clark_notation}. Expected format: {{uri}}local_name"
             )
 
-        prefix = match.group("prefix")
+        uri = match.group("uri")
         local_name = match.group("local_name")
-        uri = None
+        prefix = None
         return cls(local_name=local_name, uri=uri, prefix=prefix)
 
     @staticmethod
-- 
2.43.0


From 05b3a15b22d847d531fa39d8bd15b9453735a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:08 +0000
Subject: [PATCH 47/78] fix: facts of an XML document carry their decimals and
 precision

---
 brel/parsers/XML/xml_facts_parser.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 73cf669..41cbce1 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -19,6 +19,9 @@ from brel import Context, Fact
 from brel.characteristics import *
 from brel.errors.error_code import ErrorCode
 from brel.errors.error_instance import ErrorInstance
+from brel.parsers.XHMTL.elements.parse_non_fraction import (
+    parse_decimals_or_precision,
+)
 from brel.parsers.XML.characteristics import parse_unit_from_xml
 from brel.parsers.XML.xml_context_parser import parse_context_xml
 from brel.parsers.utils.error_utils import error_on_none
@@ -80,7 +83,29 @@ def parse_fact_from_xml(
             context_concept=context_concept.get_value().get_name().clark_notation(),
         )
 
-    fact_repository.upsert(Fact(context, fact_value, fact_id))
+    decimals_str = fact_xml_element.get("decimals")
+    decimals: float | None = None
+    try:
+        decimals = parse_decimals_or_precision(decimals_str, True)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_DECIMALS_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            decimals=decimals_str,
+        )
+
+    precision_str = fact_xml_element.get("precision")
+    precision: float | None = None
+    try:
+        precision = parse_decimals_or_precision(precision_str, False)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_PRECISION_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            precision=precision_str,
+        )
+
+    fact_repository.upsert(Fact(context, fact_value, fact_id, decimals, precision))
 
 
 def parse_facts_xml(
-- 
2.43.0


From 879f9b68547af87c10868f808e1312037efbd394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:32 +0000
Subject: [PATCH 48/78] fix: dimensions in the scenario of a context are part
 of the context

---
 brel/parsers/XML/xml_context_parser.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index a470170..95e41db 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -68,10 +68,18 @@ def parse_context_xml(
         fact_context._add_characteristic(entity)
 
     # add the dimensions. the dimensions are the children of context/entity/segment
+    # or, just as well, of context/scenario
     segment = context_entity.find("{*}segment", namespaces=None)
-
-    if segment is not None:
-        for xml_dimension in segment:
+    scenario = xml_element.find("{*}scenario", namespaces=None)
+    xml_dimensions = [
+        xml_dimension
+        for container in (segment, scenario)
+        if container is not None
+        for xml_dimension in container
+    ]
+
+    if len(xml_dimensions) > 0:
+        for xml_dimension in xml_dimensions:
             if "explicitMember" in xml_dimension.tag:
                 explicit_dimension_characteristic = parse_explicit_dimension_from_xml(
                     filing_context, xml_dimension
-- 
2.43.0


From 19c02c8aedc470dc1a7836f4bfb9569e7624ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:35 +0000
Subject: [PATCH 49/78] fix: entities with the same identifier in different
 schemes are told apart

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index ad5f3d7..3f61714 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -56,9 +56,11 @@ def parse_entity_from_xml(
         )
         return None
 
-    if characteristic_repository.has(entity_id, EntityCharacteristic):
-        return characteristic_repository.get(entity_id, EntityCharacteristic)
+    # the same identifier denotes another entity in another scheme
+    entity_key = f"{{{entity_url}}}{entity_id}"
+    if characteristic_repository.has(entity_key, EntityCharacteristic):
+        return characteristic_repository.get(entity_key, EntityCharacteristic)
     else:
         entity_characteristic = EntityCharacteristic(entity_id, entity_url)
-        characteristic_repository.upsert(entity_id, entity_characteristic)
+        characteristic_repository.upsert(entity_key, entity_characteristic)
         return entity_characteristic
-- 
2.43.0


From b4b338f03e43fdb12e28d008943bf9785833de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:35 +0000
Subject: [PATCH 50/78] fix: units with the same id in different documents are
 told apart

---
 brel/parsers/XML/xml_facts_parser.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 41cbce1..6db7e56 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -11,7 +11,6 @@ It parses XBRL in the XML syntax.
 ====================
 """
 
-from typing import cast
 import lxml
 import lxml.etree
 
@@ -122,6 +121,9 @@ def parse_facts_xml(
     xml_service = context.get_xml_service()
 
     for xbrl_instance in xml_service.get_all_etrees():
+        # the ids of units are unique only within their document
+        units: dict[str, UnitCharacteristic] = {}
+
         for xml_fact in find_elements(xbrl_instance, ".//*[@contextRef]"):
             fact_characteristics: list[UnitCharacteristic | ConceptCharacteristic] = []
 
@@ -165,20 +167,14 @@ def parse_facts_xml(
 
                     continue
 
-                if not characteristics_repository.has(unit_id, UnitCharacteristic):
+                if unit_id not in units:
                     new_unit = parse_unit_from_xml(context, unit_xml)
                     if not new_unit:
                         continue
 
-                    characteristics_repository.upsert(unit_id, new_unit)
-
-                unit_characteristic = characteristics_repository.get(
-                    unit_id, UnitCharacteristic
-                )
+                    units[unit_id] = new_unit
 
-                fact_characteristics.append(
-                    cast(UnitCharacteristic, unit_characteristic)
-                )
+                fact_characteristics.append(units[unit_id])
 
             # ======== PARSE THE CONTEXT ========
             context_id = get_str_attribute(xml_fact, "contextRef")
-- 
2.43.0


From fd88a0af476676756ec95a9c89a78d772af9eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 51/78] fix: find inline facts when the inline namespace is not
 declared at the root

---
 brel/parsers/XHMTL/xhtml_parse_facts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_facts.py b/brel/parsers/XHMTL/xhtml_parse_facts.py
index deb44bb..8f0c616 100644
--- a/brel/parsers/XHMTL/xhtml_parse_facts.py
+++ b/brel/parsers/XHMTL/xhtml_parse_facts.py
@@ -141,10 +141,11 @@ def parse_instance_elements(
     etrees: list[_Element],
 ) -> Tuple[List[_Element], List[_Element], List[_Element]]:
     fact_elements, footnote_elements, continuation_elements = [], [], []
+    ix = {"ix": "http://www.xbrl.org/2013/inlineXBRL"}
     for xbrl_instance in etrees:
-        facts = find_elements(xbrl_instance, ".//ix:nonNumeric | .//ix:nonFraction")
-        footnotes = find_elements(xbrl_instance, ".//ix:footnote")
-        continuations = find_elements(xbrl_instance, ".//ix:continuation")
+        facts = find_elements(xbrl_instance, ".//ix:nonNumeric | .//ix:nonFraction", ix)
+        footnotes = find_elements(xbrl_instance, ".//ix:footnote", ix)
+        continuations = find_elements(xbrl_instance, ".//ix:continuation", ix)
 
         fact_elements += facts
         footnote_elements += footnotes
-- 
2.43.0


From f830bdb7091c52ee3dfdd875a7a9a8d71966ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 52/78] fix: keep every fact when several facts have the same
 id

---
 brel/data/fact/in_memory_fact_repository.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index a299f08..a1a81d1 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -16,7 +16,7 @@ from brel.brel_fact import Fact
 class InMemoryFactRepository(FactRepository):
     def __init__(self) -> None:
         self.__facts_by_id: dict[str, Fact] = {}
-        self.__facts_without_id: list[Fact] = []
+        self.__facts: list[Fact] = []
 
     def get_by_id(self, id: str) -> Fact:
         return self.__facts_by_id[id]
@@ -31,15 +31,14 @@ class InMemoryFactRepository(FactRepository):
         return id in self.__facts_by_id
 
     def get_all(self):
-        return list(self.__facts_by_id.values()) + self.__facts_without_id
+        return list(self.__facts)
 
     def upsert(self, fact: Fact) -> None:
         """
-        Set the fact by its ID.
+        Add the fact. It can be found by its ID, if it has one.
         :param fact: The fact to set.
         """
         fact_id = fact.get_id()
-        if fact_id is None:
-            self.__facts_without_id.append(fact)
-        else:
+        self.__facts.append(fact)
+        if fact_id is not None:
             self.__facts_by_id[fact_id] = fact
-- 
2.43.0


From 7aab6340f5c7905b2abd394a6cc3e428b517ff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 53/78] fix: end a continuation chain that leads back to itself

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 83eec8a..7ba2bcf 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -91,6 +91,9 @@ def create_continuation_chains(
 
                 break
 
+            if continuation in continuation_chain:
+                break
+
             continuation_chain.append(continuation)
             used_continuation_ids.add(continued_at)
             continued_at = get_str_attribute_optional(continuation, "continuedAt")
-- 
2.43.0


From 9a899d488e7a7804e1cce373040c6732f75cdad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 54/78] fix: local documents that refer to each other by ./
 paths are loaded once

---
 brel/services/xml/xml_service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 9288860..4666f9c 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import os
 import re
 from typing import List, Optional
 import urllib.parse
@@ -53,6 +54,7 @@ class XMLService:
                 referencing_uri.split(referencing_splitting_char)[:-1]
                 + uri.split(uri_splitting_char)
             )
+            uri = os.path.normpath(uri)
         else:
             uri = urllib.parse.urljoin(referencing_uri, uri)
 
-- 
2.43.0


From 2e9090c455ca9ca9e41fbdd43af727e7baec65e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 55/78] fix: keep the whole content of labels and footnotes
 with nested markup

---
 brel/parsers/XML/networks/xml_resource_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_resource_parser.py b/brel/parsers/XML/networks/xml_resource_parser.py
index 2135f6f..9c163c6 100644
--- a/brel/parsers/XML/networks/xml_resource_parser.py
+++ b/brel/parsers/XML/networks/xml_resource_parser.py
@@ -41,7 +41,7 @@ def parse_xml_resource(
             error_repository.insert(ErrorCode.MISSING_LABEL_LANGUAGE, xml_element)
             return None
 
-        text = xml_element.text if xml_element.text else ""
+        text = "".join(xml_element.itertext())
         return BrelLabel(text, label, lang, role)
     elif "footnote" in tag:
         lang = get_elem_lang_recursive(xml_element)
@@ -52,7 +52,7 @@ def parse_xml_resource(
             )
             return None
 
-        text = xml_element.text or "".join(child.__str__() for child in xml_element)
+        text = "".join(xml_element.itertext())
         return BrelFootnote(text, label, lang, role)
     elif "reference" in tag:
         content = {
-- 
2.43.0


From 05aa5961636a33aa2a067add548057c7960dbb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 56/78] fix: store documents byte for byte, whatever their
 encoding

---
 brel/data/file/pyfs_file_repository.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/brel/data/file/pyfs_file_repository.py b/brel/data/file/pyfs_file_repository.py
index 5c40743..16f93f5 100644
--- a/brel/data/file/pyfs_file_repository.py
+++ b/brel/data/file/pyfs_file_repository.py
@@ -28,10 +28,7 @@ class PyFsFileRepository(FileRepository):
             self.fs.removetree("/")
 
     def add_file(self, uri: str, file: IO[bytes]) -> None:
-        return self.fs.writetext(
-            uri_to_filename(uri),
-            file.read().decode("utf-8"),
-        )
+        return self.fs.writebytes(uri_to_filename(uri), file.read())
 
     def get_file(self, uri: str) -> IO[bytes]:
         file_name = uri_to_filename(uri)
-- 
2.43.0


From 672566263c753553c23de7f4155281f86c893baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 57/78] fix: rewrite an address by the longest matching start
 of the catalog

---
 brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
index f049936..e4c8c4b 100644
--- a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
+++ b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
@@ -22,8 +22,9 @@ class InMemoryURIRewriteRepository(URIRewriteRepository):
         del self.__catalog[original_string]
 
     def rewrite(self, uri: str) -> str:
-        for original_string, replacement_string in self.__catalog.items():
+        # the longest matching start string applies
+        for original_string in sorted(self.__catalog, key=len, reverse=True):
             if uri.startswith(original_string):
-                return replacement_string + uri[len(original_string) :]
+                return self.__catalog[original_string] + uri[len(original_string) :]
 
         return uri
-- 
2.43.0


From 08be1a08a2a42247f710172cf7b9780d66b1ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 58/78] fix: give every address a file name of its own in the
 cache

---
 brel/parsers/utils/file_utils.py   | 34 ++++--------------------------
 brel/services/file/file_service.py |  9 ++++----
 brel/services/xml/xml_service.py   |  3 +--
 3 files changed, 10 insertions(+), 36 deletions(-)

diff --git a/brel/parsers/utils/file_utils.py b/brel/parsers/utils/file_utils.py
index c05b40a..3de4be1 100644
--- a/brel/parsers/utils/file_utils.py
+++ b/brel/parsers/utils/file_utils.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import hashlib
 import re
 
 
@@ -22,33 +23,6 @@ def uri_to_filename(uri: str) -> str:
     file_format_match = re.search(r"\.([a-zA-Z0-9]+)$", uri)
     file_format = "." + file_format_match.group(1) if file_format_match else ""
 
-    if not uri.startswith("http"):
-        posix_uri = uri.replace("\\", "/")
-        if "/" in posix_uri:
-            return posix_uri.split("/")[-1]
-        else:
-            return posix_uri
-
-    uri = uri.replace("." + file_format, "")
-
-    if "http" in uri:
-        # remove http and https
-        uri = uri.replace("http://", "")
-        uri = uri.replace("https://", "")
-
-        # replace www. and things like .com, .org, etc.
-        uri = uri.replace("www.", "")
-        # the .com is between the first . and the first /
-        # uri = uri.split(".")[0] + uri.split("/")[1]
-    # replace all / with _
-    uri = uri.replace("/", "_")
-    # replace all : with _
-    uri = uri.replace(":", "_")
-    # replace all ? with _
-    uri = uri.replace("?", "_")
-    # replace all . with _
-    uri = uri.replace(".", "_")
-    # replace all \ with _
-    uri = uri.replace("\\", "_")
-
-    return uri + file_format
+    # names that only replace the special characters, or only keep the last part of
+    # the uri, are shared by different uris
+    return hashlib.sha256(uri.encode("utf-8")).hexdigest() + file_format
diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index 0fbcd8d..aa7b648 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -9,6 +9,7 @@
 """
 
 import time
+import urllib.parse
 from io import BytesIO
 from typing import IO, Optional
 from requests import RequestException, Session
@@ -72,7 +73,7 @@ class FileService:
 
         return self.get_file(uri)
 
-    def copy_and_add_file(self, local_path: str) -> IO[bytes]:
-        with open(local_path, "rb") as file:
-            self.add_file(local_path, file)
-        return self.get_file(local_path)
+    def copy_and_add_file(self, uri: str) -> IO[bytes]:
+        with open(urllib.parse.urlparse(uri).path, "rb") as file:
+            self.add_file(uri, file)
+        return self.get_file(uri)
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 4666f9c..f68de87 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -77,8 +77,7 @@ class XMLService:
             with downloaded_file as file:
                 self.__xml_repository.add_etree(uri, parser(file))
         else:
-            local_filepath = urllib.parse.urlparse(uri).path
-            with self.__file_service.copy_and_add_file(local_filepath) as file:
+            with self.__file_service.copy_and_add_file(uri) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
 
         with self.__file_service.get_file(uri) as file:
-- 
2.43.0


From e9911250cce6edb5d3babce6036ce5abcc229deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:39 +0000
Subject: [PATCH 59/78] fix: read local documents as they are now, not as an
 earlier filing cached them

---
 brel/services/xml/xml_service.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index f68de87..1bddd86 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -59,14 +59,15 @@ class XMLService:
             uri = urllib.parse.urljoin(referencing_uri, uri)
 
         uri = self.__uri_rewrite_repository.rewrite(uri)
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        is_uri_remote = uri.startswith("http")
 
         if self.__xml_repository.has_etree(uri):
             return
 
         parser = self.__parser_resolver.get_parser(uri)
 
-        if self.__file_service.has_file(uri):
+        # a local file can have changed since it was copied
+        if is_uri_remote and self.__file_service.has_file(uri):
             with self.__file_service.get_file(uri) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
         elif is_uri_remote:
-- 
2.43.0


From f82060ea7a4df6ee8efecba08e8426a743adcfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:39 +0000
Subject: [PATCH 60/78] fix: find the schema of a typed domain by its resolved
 address

---
 brel/data/xml/xml_repository.py               |  8 +++
 brel/parsers/XML/xml_report_element_parser.py |  9 ++--
 brel/services/xml/xml_service.py              | 49 +++++++++++++------
 3 files changed, 49 insertions(+), 17 deletions(-)

diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index a65c593..a2353e4 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -11,6 +11,7 @@ The XMLSchemaManager class is responsible for downloading and caching XBRL taxon
 =================
 """
 
+from typing import Optional
 import lxml
 import lxml.etree
 from brel.parsers.utils.lxml_xpath_utils import add_xpath_functions
@@ -33,6 +34,13 @@ class XMLRepository:
     def get_etree(self, uri: str) -> lxml.etree._ElementTree:
         return self.__xml_etree_cache[self.normalize_uri(uri)]
 
+    def get_uri(self, etree: lxml.etree._ElementTree) -> Optional[str]:
+        for uri, stored_etree in self.__xml_etree_cache.items():
+            if stored_etree is etree:
+                return uri
+
+        return None
+
     def get_all_etrees(self) -> list[lxml.etree._ElementTree]:
         return list(self.__xml_etree_cache.values())
 
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index a79d1fa..b4363cd 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -93,9 +93,12 @@ def parse_report_element(
                 ref_xml = None
                 if not ref_schema_name or ref_schema_name == ".":
                     ref_xml = current_etree.find(f".//*[@id='{ref_id}']")
-                elif xml_service.has_etree(ref_schema_name):
-                    refschema = xml_service.get_etree(ref_schema_name)
-                    ref_xml = refschema.find(f".//*[@id='{ref_id}']")
+                else:
+                    refschema = xml_service.get_referenced_etree(
+                        ref_schema_name, current_etree
+                    )
+                    if refschema is not None:
+                        ref_xml = refschema.find(f".//*[@id='{ref_id}']")
 
                 if ref_xml is None or not has_str_attribute(ref_xml, "type"):
                     error_repository.insert(
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 1bddd86..b81f4aa 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -45,20 +45,7 @@ class XMLService:
         :param referencing_uri: The URI of the file that references this XML file.
         the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
         """
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
-        if not is_uri_remote:
-            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
-            uri_splitting_char = "\\" if "\\" in uri else "/"
-
-            uri = uri_splitting_char.join(
-                referencing_uri.split(referencing_splitting_char)[:-1]
-                + uri.split(uri_splitting_char)
-            )
-            uri = os.path.normpath(uri)
-        else:
-            uri = urllib.parse.urljoin(referencing_uri, uri)
-
-        uri = self.__uri_rewrite_repository.rewrite(uri)
+        uri = self.resolve_uri(uri, referencing_uri)
         is_uri_remote = uri.startswith("http")
 
         if self.__xml_repository.has_etree(uri):
@@ -85,6 +72,27 @@ class XMLService:
             for reference_uri in self.__extract_references(file.read()):
                 self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
+    def resolve_uri(self, uri: str, referencing_uri: str = ".") -> str:
+        """
+        The URI under which the document a reference leads to is stored.
+        :param uri: The URI as it is written in the reference.
+        :param referencing_uri: The URI of the document that contains the reference.
+        """
+        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        if not is_uri_remote:
+            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
+            uri_splitting_char = "\\" if "\\" in uri else "/"
+
+            uri = uri_splitting_char.join(
+                referencing_uri.split(referencing_splitting_char)[:-1]
+                + uri.split(uri_splitting_char)
+            )
+            uri = os.path.normpath(uri)
+        else:
+            uri = urllib.parse.urljoin(referencing_uri, uri)
+
+        return self.__uri_rewrite_repository.rewrite(uri)
+
     def __extract_references(self, content: bytes) -> list[str]:
         reference_uris: dict[str, None] = {}
         reference_pattern = re.compile(
@@ -110,6 +118,19 @@ class XMLService:
 
         return list(reference_uris)
 
+    def get_referenced_etree(
+        self, uri: str, referencing_etree: _ElementTree
+    ) -> Optional[_ElementTree]:
+        referencing_uri = self.__xml_repository.get_uri(referencing_etree)
+        if referencing_uri is None:
+            return None
+
+        uri = self.resolve_uri(uri, referencing_uri)
+        if not self.__xml_repository.has_etree(uri):
+            return None
+
+        return self.__xml_repository.get_etree(uri)
+
     def has_etree(self, uri: str) -> bool:
         return self.__xml_repository.has_etree(uri)
 
-- 
2.43.0


From d80745272ccede59ce3e1ba9cb5878c532577502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:19 +0000
Subject: [PATCH 61/78] fix: a component answers whether its calculation
 network is aggregation consistent

---
 brel/brel_component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brel/brel_component.py b/brel/brel_component.py
index c9e3c17..139fad7 100644
--- a/brel/brel_component.py
+++ b/brel/brel_component.py
@@ -155,7 +155,10 @@ class Component:
         :param facts: the facts of the filing
         :returns bool: True if and only if the component is aggregation consistent against the given facts
         """
-        raise NotImplementedError()
+        if self.__calculation_network is None:
+            return True
+
+        return self.__calculation_network.is_aggregation_consistent(facts)
 
     def get_networks(self) -> list[INetwork]:
         """
-- 
2.43.0


From dcd065021a9ac032742d5db874ac904cd0a10c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:19 +0000
Subject: [PATCH 62/78] fix: subtotals below a node without facts are still
 checked for aggregation consistency

---
 brel/networks/calculation_network.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 4b37881..77f04b1 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -206,11 +206,11 @@ class CalculationNetwork(INetwork):
                 if node_value != children_sum:
                     return False
 
-                # check the children
-                for child in node.get_children():
-                    child = cast(CalculationNetworkNode, child)
-                    if not is_subnetwork_aggregation_consistent(child):
-                        return False
+            # check the children
+            for child in node.get_children():
+                child = cast(CalculationNetworkNode, child)
+                if not is_subnetwork_aggregation_consistent(child):
+                    return False
 
             return True
 
-- 
2.43.0


From f41a6651b706f96ce5ec2a49d3621f3e4c541d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 63/78] fix: a single inline document called .htm or .html can
 be opened

---
 brel/parsers/path_loaders/file_path_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/path_loaders/file_path_loader.py b/brel/parsers/path_loaders/file_path_loader.py
index 0cdba76..2b27ec6 100644
--- a/brel/parsers/path_loaders/file_path_loader.py
+++ b/brel/parsers/path_loaders/file_path_loader.py
@@ -17,12 +17,12 @@ class FilePathLoader(PathLoader):
         """
         Checks if the loader is applicable for the given path.
         This loader is applicable for any file path that is not a directory.
-        The supported file extensions are: .xml and .xhtml.
+        The supported file extensions are: .xml, .xhtml, .htm and .html.
         Weblinks are also supported.
         :param path: The file path to check.
         :returns: True if the loader can handle the path, False otherwise.
         """
-        if path.endswith((".xml", ".xhtml")):
+        if path.endswith((".xml", ".xhtml", ".htm", ".html")):
             if os.path.isfile(path):
                 return True
             if path.startswith(("http://", "https://")):
-- 
2.43.0


From 479e90940e3e8618a8252f2b69b51a738a637f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 64/78] fix: a folder yields files ending in .html, not all
 names that end in html

---
 brel/parsers/path_loaders/folder_path_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/path_loaders/folder_path_loader.py b/brel/parsers/path_loaders/folder_path_loader.py
index b343e71..9074568 100644
--- a/brel/parsers/path_loaders/folder_path_loader.py
+++ b/brel/parsers/path_loaders/folder_path_loader.py
@@ -46,7 +46,7 @@ class FolderPathLoader(PathLoader):
         filtered_files = [
             file
             for file in files
-            if file.endswith((".xml", ".xhtml", ".htm", "html", ".xsd"))
+            if file.endswith((".xml", ".xhtml", ".htm", ".html", ".xsd"))
         ]
 
         folders = [
-- 
2.43.0


From 90b8b75ff0dc2d10d11223581a3093ae15197f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 65/78] fix: the files of an archive are extracted before they
 are opened, of every kind that can be read

---
 brel/parsers/path_loaders/zip_path_loader.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/path_loaders/zip_path_loader.py b/brel/parsers/path_loaders/zip_path_loader.py
index b955013..e7de811 100644
--- a/brel/parsers/path_loaders/zip_path_loader.py
+++ b/brel/parsers/path_loaders/zip_path_loader.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+from brel.parsers.path_loaders.folder_path_loader import FolderPathLoader
 from brel.parsers.path_loaders.path_loader import PathLoader
 
 
@@ -16,9 +17,22 @@ class ZipPathLoader(PathLoader):
         return path.endswith(".zip")
 
     def load(self, path: str) -> list[str]:
+        """
+        Extracts the archive and loads all files it contains.
+
+        :param path: The path of the archive.
+        :returns: A list of the paths of the extracted files.
+        """
+        import atexit
+        import shutil
+        import tempfile
         import zipfile
 
+        # the files are read while the filing is opened
+        folder = tempfile.mkdtemp(prefix="brel_")
+        atexit.register(shutil.rmtree, folder, ignore_errors=True)
+
         with zipfile.ZipFile(path, "r") as zip_ref:
-            file_list = zip_ref.namelist()
-            # More extensions?
-            return [file for file in file_list if file.endswith((".xml", ".xhtml"))]
+            zip_ref.extractall(folder)
+
+        return FolderPathLoader().load(folder)
-- 
2.43.0


From 4d13c5bdec9a9f4ed7606149875832f816f68442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:15 +0000
Subject: [PATCH 66/78] fix: a table definition can be stored: typing.List
 cannot be called to make a list

---
 brel/data/table_linkbase/in_memory_table_linkbase_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/data/table_linkbase/in_memory_table_linkbase_repository.py b/brel/data/table_linkbase/in_memory_table_linkbase_repository.py
index be9a584..8ca67ad 100644
--- a/brel/data/table_linkbase/in_memory_table_linkbase_repository.py
+++ b/brel/data/table_linkbase/in_memory_table_linkbase_repository.py
@@ -7,7 +7,7 @@ from brel.table_linkbases.definition_model.table import Table
 class InMemoryTableLinkbaseRepository(TableLinkbaseRepository):
     def __init__(self) -> None:
         self.__structural_tables_by_linkrole: dict[str, List[Table]] = defaultdict(
-            List[Table]
+            list
         )
 
     def get_all_definition_tables(self) -> List[Table]:
-- 
2.43.0


From 2ffd3fb06b91f8bd866a5eb0f7c537301e055b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:37 +0000
Subject: [PATCH 67/78] fix: find the translation table from any working
 directory

---
 brel/config/brel_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index 1515339..a86c1ea 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -1,3 +1,4 @@
+import os
 from locale import getdefaultlocale
 from typing import List, Optional, Unpack, cast
 
@@ -44,4 +45,4 @@ class BrelConfig:
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-        return "./brel/config/translations.csv"
+        return os.path.join(os.path.dirname(__file__), "translations.csv")
-- 
2.43.0


From d04065f09c1476bdee4b9ed8d258c86117d07fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:36 +0000
Subject: [PATCH 68/78] fix: a local file whose name starts with http is not
 fetched from the network

---
 brel/services/xml/xml_service.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index b81f4aa..8935e62 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -22,6 +22,11 @@ from brel.services.file.file_service import FileService
 from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver
 
 
+def is_remote(uri: str) -> bool:
+    # a local file can have a name that starts with http
+    return uri.startswith(("http://", "https://"))
+
+
 class XMLService:
     def __init__(
         self,
@@ -46,7 +51,7 @@ class XMLService:
         the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
         """
         uri = self.resolve_uri(uri, referencing_uri)
-        is_uri_remote = uri.startswith("http")
+        is_uri_remote = is_remote(uri)
 
         if self.__xml_repository.has_etree(uri):
             return
@@ -78,7 +83,7 @@ class XMLService:
         :param uri: The URI as it is written in the reference.
         :param referencing_uri: The URI of the document that contains the reference.
         """
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        is_uri_remote = is_remote(uri) or is_remote(referencing_uri)
         if not is_uri_remote:
             referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
             uri_splitting_char = "\\" if "\\" in uri else "/"
-- 
2.43.0


From 6e3b7eaf0469c524878b9288d2ce4f0a5aa1e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:08 +0000
Subject: [PATCH 69/78] fix: month names, orders and patterns of inline date
 formats agree

---
 .../xhtml_parse_transformation_registry.py    | 55 ++++++++++---------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 45197f8..15c00c6 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -33,13 +33,13 @@ date_format_to_regex = {
     "ixt:date-monthname-year-bg": r"^(ян|фев|мар|апр|май|маи|юни|юли|авг|сеп|окт|ное|дек|ЯН|ФЕВ|МАР|АПР|МАЙ|МАИ|ЮНИ|ЮЛИ|АВГ|СЕП|ОКТ|НОЕ|ДЕК|Ян|Фев|Мар|Апр|Май|Маи|Юни|Юли|Авг|Сеп|Окт|Ное|Дек)[^0-9]+([0-9]{1,2}|[0-9]{4})[^0-9]*$",
     "ixt:date-day-monthname-cs": r"^([0-9]{1,2})[^0-9]+(ledna|února|unora|března|brezna|dubna|května|kvetna|června|cervna|července|cervence|srpna|září|zari|října|rijna|listopadu|prosince|led|úno|uno|bře|bre|dub|kvě|kve|čvn|cvn|čvc|cvc|srp|zář|zar|říj|rij|lis|pro|LEDNA|ÚNORA|UNORA|BŘEZNA|BREZNA|DUBNA|KVĚTNA|KVETNA|ČERVNA|CERVNA|ČERVENCE|CERVENCE|SRPNA|ZÁŘÍ|ZARI|ŘÍJNA|RIJNA|LISTOPADU|PROSINCE|LED|ÚNO|UNO|BŘE|BRE|DUB|KVĚ|KVE|ČVN|CVN|ČVC|CVC|SRP|ZÁŘ|ZAR|ŘÍJ|RIJ|LIS|PRO|Ledna|Února|Unora|Března|Brezna|Dubna|Května|Kvetna|Června|Cervna|Července|Cervence|Srpna|Září|Zari|Října|Rijna|Listopadu|Prosince|Led|Úno|Uno|Bře|Bre|Dub|Kvě|Kve|Čvn|Cvn|Čvc|Cvc|Srp|Zář|Zar|Říj|Rij|Lis|Pro)\.?$",
     "ixt:date-day-monthname-year-cs": r"^([0-9]{1,2})[^0-9]+(ledna|února|unora|března|brezna|dubna|května|kvetna|června|cervna|července|cervence|srpna|září|zari|října|rijna|listopadu|prosince|led|úno|uno|bře|bre|dub|kvě|kve|čvn|cvn|čvc|cvc|srp|zář|zar|říj|rij|lis|pro|LEDNA|ÚNORA|UNORA|BŘEZNA|BREZNA|DUBNA|KVĚTNA|KVETNA|ČERVNA|CERVNA|ČERVENCE|CERVENCE|SRPNA|ZÁŘÍ|ZARI|ŘÍJNA|RIJNA|LISTOPADU|PROSINCE|LED|ÚNO|UNO|BŘE|BRE|DUB|KVĚ|KVE|ČVN|CVN|ČVC|CVC|SRP|ZÁŘ|ZAR|ŘÍJ|RIJ|LIS|PRO|Ledna|Února|Unora|Března|Brezna|Dubna|Května|Kvetna|Června|Cervna|Července|Cervence|Srpna|Září|Zari|Října|Rijna|Listopadu|Prosince|Led|Úno|Uno|Bře|Bre|Dub|Kvě|Kve|Čvn|Cvn|Čvc|Cvc|Srp|Zář|Zar|Říj|Rij|Lis|Pro)[^0-9a-zA-Z]+[^0-9]*([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthname-year-cs": r"^(leden|ledna|lednu|únor|unor|února|unora|únoru|unoru|březen|brezen|března|brezna|březnu|breznu|duben|dubna|dubnu|květen|kveten|května|kvetna|květnu|kvetnu|červen|cerven|června|cervna|červnu|cervnu|červenec|cervenec|července|cervence|červenci|cervenci|srpen|srpna|srpnu|září|zari|říjen|rijen|října|rijna|říjnu|rijnu|listopad|listopadu|prosinec|prosince|prosinci|led|úno|uno|bře|bre|dub|kvě|kve|čvn|cvn|čvc|cvc|srp|zář|zar|říj|rij|lis|pro|LEDEN|LEDNA|LEDNU|ÚNOR|UNOR|ÚNORA|UNORA|ÚNORU|UNORU|BŘEZEN|BREZEN|BŘEZNA|BREZNA|BŘEZNU|BREZNU|DUBEN|DUBNA|DUBNU|KVĚTEN|KVETEN|KVĚTNA|KVETNA|KVĚTNU|KVETNU|ČERVEN|CERVEN|ČERVNA|CERVNA|ČERVNU|CERVNU|ČERVENEC|CERVENEC|ČERVENCE|CERVENCE|ČERVENCI|CERVENCI|SRPEN|SRPNA|SRPNU|ZÁŘÍ|ZARI|ŘÍJEN|RIJEN|ŘÍJNA|RIJNA|ŘÍJNU|RIJNU|LISTOPAD|LISTOPADU|PROSINEC|PROSINCE|PROSINCI|LED|ÚNO|UNO|BŘE|BRE|DUB|KVĚ|KVE|ČVN|CVN|ČVC|CVC|SRP|ZÁŘ|ZAR|ŘÍJ|RIJ|LIS|PRO|Leden|Ledna|Lednu|Únor|Unor|Února|Unora|Únoru|Unoru|Březen|Brezen|Března|Brezna|Březnu|Breznu|Duben|Dubna|Dubnu|Květen|Kveten|Května|Kvetna|Květnu|Kvetnu|Červen|Cerven|Června|Cervna|Červnu|Cervnu|Červenec|Cervenec|Července|Cervence|Červenci|Cervenci|Srpen|Srpna|Srpnu|Září|Zari|Říjen|Rijen|Října|Rijna|Říjnu|Rijnu|Listopad|Listopadu|Prosinec|Prosince|Prosinci|Led|Úno|Uno|Bře|Bre|Dub|Kvě|Kve|Čvn|Cvn|Čvc|Cvc|Srp|Zář|Zar|Říj|Rij|Lis|Pro)[^0-9a-zA-Z]+[^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-cs": r"^(leden|ledna|lednu|únor|unor|února|unora|únoru|unoru|březen|brezen|března|brezna|březnu|breznu|duben|dubna|dubnu|květen|kveten|května|kvetna|květnu|kvetnu|červenec|cervenec|července|cervence|červenci|cervenci|ČERVENEC|CERVENEC|ČERVENCE|CERVENCE|ČERVENCI|CERVENCI|Červenec|Cervenec|Července|Cervence|Červenci|Cervenci|červen|cerven|června|cervna|červnu|cervnu|srpen|srpna|srpnu|září|zari|říjen|rijen|října|rijna|říjnu|rijnu|listopad|listopadu|prosinec|prosince|prosinci|led|úno|uno|bře|bre|dub|kvě|kve|čvn|cvn|čvc|cvc|srp|zář|zar|říj|rij|lis|pro|LEDEN|LEDNA|LEDNU|ÚNOR|UNOR|ÚNORA|UNORA|ÚNORU|UNORU|BŘEZEN|BREZEN|BŘEZNA|BREZNA|BŘEZNU|BREZNU|DUBEN|DUBNA|DUBNU|KVĚTEN|KVETEN|KVĚTNA|KVETNA|KVĚTNU|KVETNU|ČERVEN|CERVEN|ČERVNA|CERVNA|ČERVNU|CERVNU|SRPEN|SRPNA|SRPNU|ZÁŘÍ|ZARI|ŘÍJEN|RIJEN|ŘÍJNA|RIJNA|ŘÍJNU|RIJNU|LISTOPAD|LISTOPADU|PROSINEC|PROSINCE|PROSINCI|LED|ÚNO|UNO|BŘE|BRE|DUB|KVĚ|KVE|ČVN|CVN|ČVC|CVC|SRP|ZÁŘ|ZAR|ŘÍJ|RIJ|LIS|PRO|Leden|Ledna|Lednu|Únor|Unor|Února|Unora|Únoru|Unoru|Březen|Brezen|Března|Brezna|Březnu|Breznu|Duben|Dubna|Dubnu|Květen|Kveten|Května|Kvetna|Květnu|Kvetnu|Červen|Cerven|Června|Cervna|Červnu|Cervnu|Srpen|Srpna|Srpnu|Září|Zari|Říjen|Rijen|Října|Rijna|Říjnu|Rijnu|Listopad|Listopadu|Prosinec|Prosince|Prosinci|Led|Úno|Uno|Bře|Bre|Dub|Kvě|Kve|Čvn|Cvn|Čvc|Cvc|Srp|Zář|Zar|Říj|Rij|Lis|Pro)[^0-9a-zA-Z]+[^0-9]*([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-da": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthname-year-de": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-de": r"^(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΥΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]{0,8}$",
     "ixt:date-day-monthname-year-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-el": r"^(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
@@ -64,9 +64,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-hr": r"^(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))$",
-    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthroman-year": r"^((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I{1,3}|I[VX]|VI{0,3}|XI{0,2}|i{1,3}|i[vx]|vi{0,3}|xi{0,2})$",
+    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I{1,3}|I[VX]|VI{0,3}|XI{0,2}|i{1,3}|i[vx]|vi{0,3}|xi{0,2})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthroman-year": r"^(I{1,3}|I[VX]|VI{0,3}|XI{0,2}|i{1,3}|i[vx]|vi{0,3}|xi{0,2})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-it": r"^(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
@@ -97,8 +97,8 @@ date_format_to_regex = {
     "ixt:date-day-monthname-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sk": r"^(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sl": r"^(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
@@ -206,16 +206,16 @@ country_to_month_names = {
     "cy": [
         ["ion"],
         ["chwe"],
-        ["maw"],
+        ["maw", "faw"],
         ["ebr"],
-        ["mai"],
-        ["meh"],
-        ["gor"],
+        ["mai", "fai"],
+        ["meh", "feh"],
+        ["gor", "ngor"],
         ["aws"],
-        ["med"],
+        ["med", "fed", "fedi"],
         ["hyd"],
-        ["tach"],
-        ["rhag"],
+        ["tach", "dach", "nhach", "thach"],
+        ["rhag", "rag"],
     ],
     "da": [
         ["jan"],
@@ -245,17 +245,18 @@ country_to_month_names = {
         ["nov"],
         ["dez"],
     ],
+    # the format accepts a latin i, a or o for an iota, alpha or omicron
     "el": [
-        ["ιαν", "ίαν"],
+        ["ιαν", "ίαν", "iαν"],
         ["φεβ"],
         ["μάρ", "μαρ"],
-        ["απρ", "άπρ", "αρίλ", "άρίλ", "αριλ", "άριλ"],
-        ["μαΐ", "μαι", "μάι", "μαϊ", "μάϊ"],
-        ["ιούν", "ίούν", "ίουν", "ιουν"],
-        ["ιούλ", "ίούλ", "ίουλ", "ίουλ", "ιουλ"],
+        ["απρ", "άπρ", "αρίλ", "άρίλ", "αριλ", "άριλ", "aπρ", "aρίλ", "aριλ"],
+        ["μαΐ", "μαι", "μάι", "μαϊ", "μάϊ", "μαΐ"],
+        ["ιούν", "ίούν", "ίουν", "ιουν", "iουν", "iούν"],
+        ["ιούλ", "ίούλ", "ίουλ", "ίουλ", "ιουλ", "iουλ", "iούλ"],
         ["αύγ", "αυγ"],
         ["σεπ"],
-        ["οκτ", "όκτ"],
+        ["οκτ", "όκτ", "oκτ"],
         ["νοέ", "νοε"],
         ["δεκ"],
     ],
@@ -374,8 +375,7 @@ country_to_month_names = {
     "nl": [
         ["jan"],
         ["feb"],
-        ["maa"],
-        ["mrt"],
+        ["maa", "mrt"],
         ["apr"],
         ["mei"],
         ["jun"],
@@ -408,7 +408,8 @@ country_to_month_names = {
         ["geg"],
         ["bir"],
         ["lie"],
-        ["rugp", "rgp", "rugs", "rgs"],
+        ["rugp", "rgp"],
+        ["rugs", "rgs"],
         ["spa", "spl"],
         ["lap"],
         ["gru", "grd"],
@@ -545,7 +546,7 @@ legacy_to_current_formats = {
     # Transformation registries 2 and 3
     "ixt:booleanfalse": "ixt:fixed-false",
     "ixt:booleantrue": "ixt:fixed-true",
-    "ixt:calindaymonthyear": "ixt:date-ind-day-month-year-hi",
+    "ixt:calindaymonthyear": "ixt:date-ind-day-monthname-year-hi",
     "ixt:datedaymonth": "ixt:date-day-month",
     "ixt:datedaymonthdk": "ixt:date-day-monthname-da",
     "ixt:datedaymonthen": "ixt:date-day-monthname-en",
@@ -591,7 +592,7 @@ legacy_to_current_formats = {
     "ixt:datelongdaymonthuk": "ixt:date-day-monthname-en",
     "ixt:datelongmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateshortdaymonthuk": "ixt:date-day-monthname-en",
-    "ixt:dateshortmonthdayus": "ixt:date-day-monthname-en",
+    "ixt:dateshortmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateslashdaymontheu": "ixt:date-day-month",
     "ixt:dateslashmonthdayus": "ixt:date-month-day",
     "ixt:datelongyearmonth": "ixt:date-year-monthname-en",
-- 
2.43.0


From 205ea8c6627c3637b01d19809c9c44f03aa87fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:08 +0000
Subject: [PATCH 70/78] fix: a zero and the legacy names of zero formats are
 read in inline numbers

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 15c00c6..b1a72fd 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -997,7 +997,8 @@ def normalize_numerical_fact_value(fact_value: str) -> str:
     if fact_value.startswith("."):
         fact_value = "0" + fact_value
 
-    return fact_value
+    # A zero is made of nothing but the zeros removed above
+    return fact_value or "0"
 
 
 def parse_numerical_fact_value(
@@ -1019,11 +1020,11 @@ def parse_numerical_fact_value(
     :param fact_scale: The scale to apply to the numerical value, represented as a power of 10.
     :return: The parsed and scaled numerical value as a string.
     """
+    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+
     if fact_format == "ixt:fixed-zero":
         return "0"
 
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
-
     fact_value = fact_value.strip()
     match = match_regex_numerical_fact_value(
         fact_value, fact_format, element, error_repository
-- 
2.43.0


From 4e2b5ed2b5b6a155c640984cd804d4303d579d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:08 +0000
Subject: [PATCH 71/78] fix: eras, Indian years and unknown months of inline
 dates

---
 .../xhtml_parse_transformation_registry.py    | 65 ++++++++-----------
 1 file changed, 27 insertions(+), 38 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index b1a72fd..b6bd5ad 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -665,8 +665,9 @@ def convert_japanese_imperial_date_to_gregorian(
 def convert_national_indian_date_to_gregorian(
     date_parts: dict[str, str],
 ) -> dict[str, str]:
-    if len("year") == 2:
-        date_parts["year"] = "19" + date_parts["year"]
+    is_short_year = len(date_parts["year"]) <= 2
+    if is_short_year:
+        date_parts["year"] = "19" + date_parts["year"].zfill(2)
 
     gregorian_date = indian_civil.to_gregorian(
         int(date_parts["year"]), int(date_parts["month"]), int(date_parts["day"])
@@ -675,7 +676,7 @@ def convert_national_indian_date_to_gregorian(
     gregorian_year, gregorian_month, gregorian_day = gregorian_date
 
     # We assume two-digit years fall within 2000 and 2099, as in the specifications
-    if len("year") == 2 and gregorian_year < 2000:
+    if is_short_year and gregorian_year < 2000:
         gregorian_year += 100
 
     date_parts["year"] = str(gregorian_year)
@@ -698,6 +699,8 @@ def normalize_date_parts(
 
     normalized_date_parts = {}
 
+    if "era" in date_parts:
+        normalized_date_parts["era"] = date_parts["era"]
     if "day" in date_parts:
         normalized_date_parts["day"] = "{:02n}".format(int(date_parts["day"]))
     if "month" in date_parts:
@@ -716,9 +719,10 @@ def normalize_date_parts(
     if "year" in date_parts:
         # special handling of indian national calendar
         if fact_format == "ixt:date-ind-day-monthname-year-hi":
-            normalized_date_parts = convert_national_indian_date_to_gregorian(
-                normalized_date_parts
-            )
+            if "month" in normalized_date_parts:
+                normalized_date_parts = convert_national_indian_date_to_gregorian(
+                    {**normalized_date_parts, "year": date_parts["year"]}
+                )
         elif len(date_parts["year"]) == 2:
             normalized_date_parts["year"] = "20" + date_parts["year"]
         elif len(date_parts["year"]) == 1:
@@ -733,32 +737,15 @@ def check_japanese_imperial_date_valid(date_parts: dict[str, str]) -> bool:
     era_start_date = japanese_era_to_gregorian_period[date_parts["era"]][0]
     era_end_date = japanese_era_to_gregorian_period[date_parts["era"]][1]
 
-    if "day" in date_parts:
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{date_parts["day"]}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
-
-        if given_date < era_start_date or given_date > era_end_date:
-            return False
-    else:
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{era_start_date.day}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
-
-        if given_date < era_start_date:
-            return False
-
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{era_end_date.day}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
-
-        if given_date > era_end_date:
-            return False
+    # a date without a day is compared by its year and month
+    parts = [part for part in ("year", "month", "day") if part in date_parts]
+    given_date = tuple(int(date_parts[part]) for part in parts)
 
-    return True
+    return (
+        tuple(getattr(era_start_date, part) for part in parts)
+        <= given_date
+        <= tuple(getattr(era_end_date, part) for part in parts)
+    )
 
 
 def validate_date_fact_value(
@@ -839,6 +826,10 @@ def parse_date_fact_value(
         error_repository=error_repository,
     )
 
+    # There is no such month
+    if "month" not in date_parts:
+        return fact_value
+
     if is_full_date:
         return f"{date_parts['year']}-{date_parts['month']}-{date_parts['day']}"
     elif is_recurring:
@@ -1064,15 +1055,13 @@ def parse_non_numerical_fact_value(
     if fact_format.startswith("ixt:date"):
         # Special handling of legacy format
         if fact_format == "ixt:datedaymonthyearin":
-            fact_value_option_1 = parse_date_fact_value(
-                fact_value, "ixt:date-day-month-year", element, error_repository
-            )
+            fact_format = "ixt:date-day-month-year"
+            if not re.search(date_format_to_regex[fact_format], fact_value.strip()):
+                fact_format = "ixt:date-day-monthname-year-hi"
 
-            fact_value_option_2 = parse_date_fact_value(
-                fact_value, "ixt:date-day-monthname-year-hi", element, error_repository
+            fact_value = parse_date_fact_value(
+                fact_value, fact_format, element, error_repository
             )
-
-            fact_value = fact_value_option_1 or fact_value_option_2
         else:
             fact_value = parse_date_fact_value(
                 fact_value, fact_format, element, error_repository
-- 
2.43.0


From a8e80723255f3dadd4704a46b11c43a36a422190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:42 +0000
Subject: [PATCH 72/78] fix: Indian month names with long vowels have a month

---
 .../XHMTL/xhtml_parse_transformation_registry.py       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index b6bd5ad..ae6cc14 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -336,13 +336,13 @@ country_to_month_names = {
         ["मार्च", "jy", "ज्येष्ठ"],
         ["अप्रैल", "dha", "ḍha", "आषाढ", "आषाढ़"],
         ["मई", "vana", "śrāvaṇa", "श्रावण", "सावन"],
-        ["जून", "bhadra", "proṣṭhapada", "भाद्रपद", "भादो"],
+        ["जून", "bhadra", "bhādra", "proṣṭhapada", "भाद्रपद", "भादो"],
         ["जुलाई", "in", "आश्विन"],
-        ["अगस्त", "karti", "kartik", "कार्तिक"],
-        ["सितंबर", "mrga", "marga", "agra", "मार्गशीर्ष", "अगहन"],
+        ["अगस्त", "karti", "kārti", "kartik", "कार्तिक"],
+        ["सितंबर", "mrga", "marga", "mārga", "agra", "मार्गशीर्ष", "अगहन"],
         ["अक्टूबर", "pau", "पौष"],
-        ["नवंबर", "mgh", "magha", "माघ"],
-        ["दिसंबर", "phlg", "phalg", "फाल्गुन"],
+        ["नवंबर", "mgh", "magh", "māgh", "magha", "माघ"],
+        ["दिसंबर", "phlg", "phalg", "phālg", "फाल्गुन"],
     ],
     "hr": [
         ["sij"],
-- 
2.43.0


From 77499a31ea96a8f4a773e8850b14de10ad2af8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:32 +0000
Subject: [PATCH 73/78] fix: resolve the prefixes brel names things with by its
 own namespaces

---
 brel/qnames/qname_utils.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/brel/qnames/qname_utils.py b/brel/qnames/qname_utils.py
index 27a2ede..2274bf6 100644
--- a/brel/qnames/qname_utils.py
+++ b/brel/qnames/qname_utils.py
@@ -12,6 +12,19 @@ import lxml.etree
 import re
 from brel.qnames.qname import QName
 
+# The prefixes brel itself uses to name things, whatever prefixes a document declares.
+WELL_KNOWN_NAMESPACES = {
+    "ix": "http://www.xbrl.org/2013/inlineXBRL",
+    "link": "http://www.xbrl.org/2003/linkbase",
+    "xbrldi": "http://xbrl.org/2006/xbrldi",
+    "xbrldt": "http://xbrl.org/2005/xbrldt",
+    "xbrli": "http://www.xbrl.org/2003/instance",
+    "xlink": "http://www.w3.org/1999/xlink",
+    "xml": "http://www.w3.org/XML/1998/namespace",
+    "xs": "http://www.w3.org/2001/XMLSchema",
+    "xsi": "http://www.w3.org/2001/XMLSchema-instance",
+}
+
 
 def qname_from_str(
     qname_str: str,
@@ -118,7 +131,7 @@ def qname_from_namespace_localname_notation(
         local_name = match.group(2)
         nsmap = referencing_element.nsmap
         nsmap["xml"] = "http://www.w3.org/XML/1998/namespace"
-        uri = nsmap.get(prefix, None)
+        uri = nsmap.get(prefix, WELL_KNOWN_NAMESPACES.get(prefix))
 
         # if uri is None:
         #     return ErrorInstance.create_error_instance(
-- 
2.43.0


From 8d2f215d76274480d93950aa6e15dced6768d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:34 +0000
Subject: [PATCH 74/78] fix: find and name elements of well known namespaces
 whatever prefix the document uses

---
 brel/parsers/utils/lxml_utils.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 06a04dd..851bad4 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -9,12 +9,13 @@
 """
 
 from copy import deepcopy
-from typing import Dict, List, Mapping, Optional, cast
+from typing import Dict, List, Optional, cast
 from brel.qnames.qname import QName
 import lxml.etree
 from lxml.etree import _Element, _ElementTree, XPath  # type: ignore
 
 from brel.qnames.qname_utils import (
+    WELL_KNOWN_NAMESPACES,
     is_clark_notation,
     is_namespace_localname_notation,
     qname_from_str,
@@ -90,11 +91,28 @@ def get_clark_notation_tag(element: _Element) -> str:  # type: ignore
 def get_prefix_localname_tag(element: _Element) -> str:
     """
     Helper function for getting the tag of an element as a string in prefix:localname notation.
-    Uses the namespaces available in the passed element.
+    Uses the usual prefix of well known namespaces, such as "ix" and "link", and otherwise
+    the namespaces available in the passed element.
     :param element: lxml.etree.Element to get the tag from
     :returns: str containing the tag of the element
     """
-    return qname_from_str(element.tag, element).prefix_local_name_notation()
+    qname = qname_from_str(element.tag, element)
+    for prefix, uri in WELL_KNOWN_NAMESPACES.items():
+        if uri == qname.get_URL():
+            return f"{prefix}:{qname.get_local_name()}"
+
+    return qname.prefix_local_name_notation()
+
+
+def get_namespaces(element: _Element) -> Dict[str, str]:
+    """
+    The prefixes that can be used in a query on the given element: the ones the document declares
+    and the ones brel uses, whatever prefixes the document declares.
+    :param element: lxml.etree.Element to query
+    :returns: a mapping from prefixes to namespace uris
+    """
+    declared = {k: v for k, v in element.nsmap.items() if k is not None}
+    return {**declared, **WELL_KNOWN_NAMESPACES}
 
 
 def find_elements(
@@ -109,7 +127,7 @@ def find_elements(
         element = element.getroot()
 
     if not namespaces:
-        namespaces = {k: v for k, v in element.nsmap.items() if k is not None}
+        namespaces = get_namespaces(element)
 
     try:
         find = XPath(xpath_query, namespaces=namespaces)
@@ -129,8 +147,7 @@ def find_element(
     if isinstance(element, _ElementTree):
         element = element.getroot()
 
-    nsmap: Mapping[str, str] = {k: v for k, v in element.nsmap.items() if k is not None}
-    return element.find(xpath_query, namespaces=nsmap)
+    return element.find(xpath_query, namespaces=get_namespaces(element))
 
 
 def get_all_nsmaps(
-- 
2.43.0


From f0524ceae01da0a83c959b6fe36199ce035bfb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 75/78] fix: compare the links a role type is used on by name,
 not by prefix

---
 brel/parsers/XML/xml_component_parser.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index 0904116..c3b165d 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -29,6 +29,15 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.data.component.component_repository import ComponentRepository
 from brel.data.network.network_repository import NetworkRepository
 from brel.parsers.utils.lxml_utils import find_element, find_elements, get_str_attribute
+from brel.qnames.qname_utils import (
+    WELL_KNOWN_NAMESPACES,
+    qname_from_str,
+    to_clark_notation,
+)
+
+PRESENTATION_LINK = to_clark_notation(WELL_KNOWN_NAMESPACES["link"], "presentationLink")
+CALCULATION_LINK = to_clark_notation(WELL_KNOWN_NAMESPACES["link"], "calculationLink")
+DEFINITION_LINK = to_clark_notation(WELL_KNOWN_NAMESPACES["link"], "definitionLink")
 
 
 def parse_component_from_xml(
@@ -43,10 +52,14 @@ def parse_component_from_xml(
     info_element = find_element(xml_element, "link:definition")
     info = (info_element.text or "") if info_element is not None else ""
 
-    used_ons = [used_on.text for used_on in find_elements(xml_element, "link:usedOn")]
+    used_ons = [
+        qname_from_str(used_on.text.strip(), used_on).clark_notation()
+        for used_on in find_elements(xml_element, "link:usedOn")
+        if used_on.text
+    ]
     networks_in_component = network_repository.get_by_linkrole(role_uri)
 
-    if "link:presentationLink" not in used_ons and any(
+    if PRESENTATION_LINK not in used_ons and any(
         map(lambda n: isinstance(n, PresentationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -55,7 +68,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:calculationLink" not in used_ons and any(
+    if CALCULATION_LINK not in used_ons and any(
         map(lambda n: isinstance(n, CalculationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -64,7 +77,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:definitionLink" not in used_ons and any(
+    if DEFINITION_LINK not in used_ons and any(
         map(lambda n: isinstance(n, DefinitionNetwork), networks_in_component)
     ):
         error_repository.insert(
-- 
2.43.0


From 0bf4981b07034cfc2fe0d3189114902a3f71ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:41 +0000
Subject: [PATCH 76/78] fix: accept any prefix for the formats of the
 transformation registry

---
 .../xhtml_parse_transformation_registry.py    | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index ae6cc14..17dbb97 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -992,6 +992,23 @@ def normalize_numerical_fact_value(fact_value: str) -> str:
     return fact_value or "0"
 
 
+def get_current_format(fact_format: str, element: _Element) -> str:
+    """
+    The current name of a format, under the prefix that the formats of this registry are listed with.
+    :param fact_format: The format as given in the document, e.g. "ixt:num-dot-decimal".
+    :param element: The element that uses the format. Its namespaces say what the prefix of the format stands for.
+    :return: The current name of the format, e.g. "ixt:num-dot-decimal".
+    """
+    fact_format = fact_format.strip()
+    prefix, _, name = fact_format.rpartition(":")
+    namespace = element.nsmap.get(prefix or None, "")
+
+    if namespace.startswith("http://www.xbrl.org/inlineXBRL/transformation/"):
+        fact_format = f"ixt:{name}"
+
+    return legacy_to_current_formats.get(fact_format, fact_format)
+
+
 def parse_numerical_fact_value(
     fact_value: str,
     fact_format: str,
@@ -1011,7 +1028,7 @@ def parse_numerical_fact_value(
     :param fact_scale: The scale to apply to the numerical value, represented as a power of 10.
     :return: The parsed and scaled numerical value as a string.
     """
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+    fact_format = get_current_format(fact_format, element)
 
     if fact_format == "ixt:fixed-zero":
         return "0"
@@ -1041,7 +1058,7 @@ def parse_non_numerical_fact_value(
     if not fact_format:
         return fact_value
 
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+    fact_format = get_current_format(fact_format, element)
 
     if fact_format.startswith("ixt:num") or fact_format == "ixt:fixed-zero":
         error_repository.insert(
-- 
2.43.0


From 374effcae31489649fbc2da425a9748860621311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:44 +0000
Subject: [PATCH 77/78] fix: read boolean attributes written as digits

---
 brel/parsers/XHMTL/elements/parse_non_fraction.py | 8 ++++----
 brel/parsers/XHMTL/elements/parse_non_numeric.py  | 4 ++--
 brel/parsers/XML/xml_report_element_factory.py    | 2 +-
 brel/reportelements/concept.py                    | 6 +++---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 1904643..804519f 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -51,7 +51,7 @@ def validate_descendant_non_fraction_rules(
         return
 
     xsi_nil = get_str_attribute_optional(element, "xsi:nil")
-    if xsi_nil == "true":
+    if xsi_nil in ("true", "1"):
         error_repository.insert(
             ErrorCode.IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD, element
         )
@@ -203,10 +203,10 @@ def parse_non_fraction_fact_element(
             ErrorCode.IXBRL_BOTH_TEXT_AND_CHILDREN_IN_NON_FRACTION, fact_element
         )
 
-    if xsi_nil == "true" and (has_text or has_children):
+    if xsi_nil in ("true", "1") and (has_text or has_children):
         error_repository.insert(ErrorCode.IXBRL_TEXT_OR_CHILDREN_WITH_NIL, fact_element)
 
-    if (not xsi_nil or xsi_nil == "false") and not has_text and not has_children:
+    if (not xsi_nil or xsi_nil in ("false", "0")) and not has_text and not has_children:
         error_repository.insert(
             ErrorCode.IXBRL_NO_TEXT_OR_CHILDREN_WITH_ABSENT_NIL_ATTRIBUTE,
             fact_element,
@@ -218,7 +218,7 @@ def parse_non_fraction_fact_element(
     validate_descendant_non_fraction_rules(fact_element, error_repository)
 
     fact_value = fact_element.text or ""
-    if xsi_nil == "true":
+    if xsi_nil in ("true", "1"):
         fact_value = ""
     elif has_text:
         fact_value = process_non_fraction_value(fact_element, error_repository)
diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 012e44b..4adb686 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -90,7 +90,7 @@ def parse_non_numeric_fact_element(
 
     escape = get_str_attribute_optional(fact_element, "escape")
 
-    if escape and escape not in ["true", "false"]:
+    if escape and escape not in ["true", "1", "false", "0"]:
         error_repository.insert(
             ErrorCode.IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE,
             fact_element,
@@ -105,7 +105,7 @@ def parse_non_numeric_fact_element(
     )
 
     fact_value = None
-    if escape == "true":
+    if escape in ("true", "1"):
         fact_value = escape_content(relevant_content)
     else:
         fact_value = extract_text_content(relevant_content)
diff --git a/brel/parsers/XML/xml_report_element_factory.py b/brel/parsers/XML/xml_report_element_factory.py
index 4a03681..01662fb 100644
--- a/brel/parsers/XML/xml_report_element_factory.py
+++ b/brel/parsers/XML/xml_report_element_factory.py
@@ -36,7 +36,7 @@ class XMLReportElementFactory:
         :returns tuple[str, IReportElement] | None: The report element created and its ID.
         """
 
-        is_abstract = xml_element.get("abstract", "false") == "true"
+        is_abstract = xml_element.get("abstract", "false") in ("true", "1")
 
         is_item = "item" in xml_element.get("substitutionGroup", "")
         is_hypercube_item = "hypercubeItem" in xml_element.get("substitutionGroup", "")
diff --git a/brel/reportelements/concept.py b/brel/reportelements/concept.py
index 7ac28e4..52d2a7d 100644
--- a/brel/reportelements/concept.py
+++ b/brel/reportelements/concept.py
@@ -313,9 +313,9 @@ class Concept(IReportElement):
 
         # get if the concept is nillable
         xml_nillable = xml_element.get("nillable", None)
-        # According to the XBRL 2.1 specification, the nillable attribute can be either true or false.
+        # According to the XBRL 2.1 specification, the nillable attribute is a boolean. It can be written as a word or a digit.
         # It is optional (thus the "None" in possible_nillable_values), and defaults to false.
-        possible_nillable_values = ["true", "false", None]
+        possible_nillable_values = ["true", "1", "false", "0", None]
         if xml_nillable not in possible_nillable_values:
             error_repository.insert(
                 ErrorCode.INVALID_CONCEPT_NILLABLE_VALUE,
@@ -326,7 +326,7 @@ class Concept(IReportElement):
 
             return None
         else:
-            nillable = xml_nillable == "true"
+            nillable = xml_nillable in ("true", "1")
 
         # get the data type of the concept
         data_type = xml_element.get("type", None)
-- 
2.43.0


From 0ec08a9684448d06b232bc4e686e73e3ee5a6958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:04 +0000
Subject: [PATCH 78/78] fix: report an inline header inside the head of a
 document

---
 brel/parsers/XHMTL/elements/parse_header.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_header.py b/brel/parsers/XHMTL/elements/parse_header.py
index e533c22..380001d 100644
--- a/brel/parsers/XHMTL/elements/parse_header.py
+++ b/brel/parsers/XHMTL/elements/parse_header.py
@@ -13,9 +13,9 @@ from lxml.etree import _Element
 def check_no_header_element_in_head(
     etree: _Element, error_repository: ErrorRepository
 ) -> None:
-    head_elements = find_elements(etree, ".//head")
+    head_elements = find_elements(etree, ".//*[local-name()='head']")
     for head_element in head_elements:
-        if find_element(head_element, ".//ix:header"):
+        if find_element(head_element, ".//ix:header") is not None:
             error_repository.insert(
                 ErrorCode.IXBRL_HEADER_ELEMENT_IN_HEAD, head_element
             )
-- 
2.43.0

