From a1e0efd4e2ccd30cea35357d4d4aa250f43fd2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 01/85] fix: collect fragment spreads from the parsed document

Fragment names with digits or underscores were cut off by the search
pattern (so their definitions were missing from the document), and text in
string arguments that looks like a spread was taken for one.
---
 turms/utils.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index dffd2ad..c2c9d26 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -1,12 +1,13 @@
 import ast
 import glob
 import re
-from typing import List, Optional, Sequence, Set, Union
+from typing import Any, List, Optional, Sequence, Set, Union
 
 from graphql import (
     BooleanValueNode,
     FloatValueNode,
     FragmentDefinitionNode,
+    FragmentSpreadNode,
     GraphQLEnumType,
     GraphQLInterfaceType,
     GraphQLList,
@@ -29,9 +30,11 @@ from graphql import (
     TypeNode,
     Undefined,
     ValueNode,
+    Visitor,
     parse,
     print_ast,
     validate,
+    visit,
 )
 from graphql.error.graphql_error import GraphQLError
 from graphql.language.ast import DocumentNode, FieldNode, NameNode
@@ -529,7 +532,22 @@ def parse_documents(
     return nodes
 
 
-fragment_searcher = re.compile(r"\.\.\.(?P<fragment>[a-zA-Z]*)")
+class FragmentSpreadCollector(Visitor):
+    """Collects the names of all fragments that are spread in a document"""
+
+    def __init__(self) -> None:
+        super().__init__()
+        self.names: Set[str] = set()
+
+    def enter_fragment_spread(self, node: FragmentSpreadNode, *_: Any) -> None:
+        self.names.add(node.name.value)
+
+
+def find_fragment_spreads(document: str) -> Set[str]:
+    """Returns the names of all fragments that are spread in the document string"""
+    collector = FragmentSpreadCollector()
+    visit(parse(document), collector)
+    return collector.names
 
 
 def auto_add_typename_field_to_fragment_str(fragment_str: str) -> str:
@@ -560,9 +578,9 @@ def replace_iteratively(
     taken: list[str] = [],
 ) -> str:
     """Replaces the fragments in the pattern with their definitions"""
-    z = set(fragment_searcher.findall(pattern))  # only set is important
+    z = find_fragment_spreads(pattern)  # only set is important
 
-    new_fragments = [new_f for new_f in z if new_f not in taken and new_f != ""]
+    new_fragments = [new_f for new_f in z if new_f not in taken]
     new_fragments.sort()
 
     if not new_fragments:
-- 
2.43.0


From fea567838bd43637dec2c5540188dc3e220a4d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 02/85] fix: escape enum members that are python keywords

The generated module was not valid python when an enum had a value such as
'in', 'from' or 'None'.
---
 turms/plugins/enums.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index e06a193..4106be8 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -1,6 +1,7 @@
 from pydantic_settings import SettingsConfigDict
 from turms.plugins.base import Plugin, PluginConfig
 import ast
+from keyword import iskeyword
 from typing import List, Sequence
 from turms.config import GeneratorConfig
 from graphql import GraphQLSchema
@@ -72,8 +73,12 @@ def generate_enums(
             else:
                 servalue = value.value.value
 
+            member_name = str(value_key)
+            if iskeyword(member_name):
+                member_name += "_"
+
             assign = ast.Assign(
-                targets=[ast.Name(id=str(value_key), ctx=ast.Store())],
+                targets=[ast.Name(id=member_name, ctx=ast.Store())],
                 value=ast.Constant(value=servalue),
             )
 
-- 
2.43.0


From 1e04541b4abd17adc4d712ac161a0ad7d6276b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:13 +0000
Subject: [PATCH 03/85] fix: add typenames below inline fragments

---
 turms/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turms/utils.py b/turms/utils.py
index c2c9d26..8afea13 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -18,6 +18,7 @@ from graphql import (
     GraphQLOutputType,
     GraphQLScalarType,
     GraphQLUnionType,
+    InlineFragmentNode,
     IntValueNode,
     ListTypeNode,
     NamedTypeNode,
@@ -480,6 +481,9 @@ def add_typename_recursively(
     for field in selections:
         if isinstance(field, FieldNode) and field.selection_set:
             add_typename_recursively(field.selection_set)
+        elif isinstance(field, InlineFragmentNode):
+            # The surrounding selection set already asks for the typename
+            add_typename_recursively(field.selection_set, skip=True)
 
     # Update the selection set with potentially added __typename fields
     selection_set.selections = tuple(selections)
-- 
2.43.0


From 9f21d18d502ff6f203aa49db30af46657187ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:13 +0000
Subject: [PATCH 04/85] fix: order fragments spread below inline fragments

---
 turms/plugins/fragments.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 0824547..d674a43 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -64,8 +64,11 @@ def find_fragment_dependencies_recursive(
                         fragment.selection_set, fragment_definitions, visited
                     )
                 )
-        # If it's a field with a nested selection set, dive deeper
-        elif isinstance(selection, FieldNode) and selection.selection_set:
+        # If it's a field or inline fragment with a nested selection set, dive deeper
+        elif (
+            isinstance(selection, (FieldNode, InlineFragmentNode))
+            and selection.selection_set
+        ):
             dependencies.update(
                 find_fragment_dependencies_recursive(
                     selection.selection_set, fragment_definitions, visited
-- 
2.43.0


From 11832fae454fa6b2912d7b60943c915a9e31bc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 05/85] fix: give sibling selections distinct classes and keep
 single member unions optional

---
 turms/recurse.py | 75 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 66 insertions(+), 9 deletions(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index d0e48fb..5fe0014 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -38,6 +38,31 @@ from graphql.type.definition import (
 from turms.config import GraphQLTypes
 
 
+def unique_class_name(
+    name: str, subtree: list[ast.ClassDef], suffix: str = ""
+) -> str:
+    """Returns a name that no class of the subtree is using yet
+
+    Sibling selections can ask for the same class name (e.g. two union fields with
+    inline fragments on the same type), later classes would then shadow earlier ones.
+
+    Args:
+        name (str): The desired name of the class
+        subtree (list[ast.ClassDef]): The classes that have already been generated
+        suffix (str, optional): A suffix that is appended to the class. Defaults to "".
+
+    Returns:
+        str: The (potentially numbered) name, without the suffix
+    """
+    taken = {cls.name for cls in subtree if isinstance(cls, ast.ClassDef)}
+    unique_name = name
+    number = 2
+    while f"{unique_name}{suffix}" in taken:
+        unique_name = f"{name}{number}"
+        number += 1
+    return unique_name
+
+
 def recurse_annotation(
     node: FieldNode,
     parent: str,
@@ -89,8 +114,9 @@ def recurse_annotation(
                 union_class_names.append(fragment_name)
 
             if isinstance(sub_node, InlineFragmentNode):
-                inline_fragment_name = (
-                    f"{parent}{sub_node.type_condition.name.value}InlineFragment"
+                inline_fragment_name = unique_class_name(
+                    f"{parent}{sub_node.type_condition.name.value}InlineFragment",
+                    subtree,
                 )
                 spread_fragment_bases: list[ast.Name] = []
                 inline_field_nodes: list[ast.AnnAssign | ast.Expr] = []
@@ -102,13 +128,16 @@ def recurse_annotation(
 
                 for sub_sub_node in sub_node.selection_set.selections:
                     if isinstance(sub_sub_node, FragmentSpreadNode):
-                        if registry.is_interface_fragment(sub_sub_node.name.value):
-                            raise Exception(
-                                "Interface Fragments with additional subfields are not yet implemented"
+                        implementation = (
+                            registry.get_interface_fragment_implementation_or_none(
+                                sub_sub_node.name.value,
+                                sub_node.type_condition.name.value,
                             )
+                        )
                         spread_fragment_bases.append(
                             ast.Name(
-                                id=registry.inherit_fragment(sub_sub_node.name.value),
+                                id=implementation
+                                or registry.inherit_fragment(sub_sub_node.name.value),
                                 ctx=ast.Load(),
                             )
                         )
@@ -210,7 +239,17 @@ def recurse_annotation(
                     ctx=ast.Load(),
                 )
         else:
-            return ast.Name(id=union_class_names[0], ctx=ast.Load())
+            single_reference = ast.Name(id=union_class_names[0], ctx=ast.Load())
+
+            if is_optional:
+                registry.register_import("typing.Optional")
+                return ast.Subscript(
+                    value=ast.Name("Optional", ctx=ast.Load()),
+                    slice=single_reference,
+                    ctx=ast.Load(),
+                )
+
+            return single_reference
 
     if isinstance(type, GraphQLInterfaceType):
         # Lets Create Base Class to Inherit from for this
@@ -219,7 +258,9 @@ def recurse_annotation(
 
         sub_nodes = non_typename_fields(node)
 
-        base_name = f"{parent}{target.capitalize()}"
+        base_name = unique_class_name(
+            f"{parent}{target.capitalize()}", subtree, suffix="Base"
+        )
 
         if type.description:
             mother_class_fields.append(
@@ -277,6 +318,20 @@ def recurse_annotation(
                 inline_fields = []
 
                 for field in sub_node.selection_set.selections:
+                    if isinstance(field, FragmentSpreadNode):
+                        implementation = (
+                            registry.get_interface_fragment_implementation_or_none(
+                                field.name.value, on_type_name
+                            )
+                        )
+                        implementing_class_base_classes.setdefault(
+                            on_type_name, []
+                        ).append(
+                            implementation
+                            or registry.inherit_fragment(field.name.value)
+                        )
+                        continue
+
                     if not isinstance(field, FieldNode):
                         continue
 
@@ -458,7 +513,9 @@ def recurse_annotation(
         pick_fields: list[ast.Expr | ast.AnnAssign] = []
 
         target = target_from_node(node)
-        object_class_name = f"{parent}{target.capitalize()}"
+        object_class_name = unique_class_name(
+            f"{parent}{target.capitalize()}", subtree
+        )
 
         if type.description:
             pick_fields.append(ast.Expr(value=ast.Constant(value=type.description)))
-- 
2.43.0


From 8b472d90d1af1cfca11a337f4afcb5ba805a705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 06/85] fix: import Field for optional arguments and honour
 arguments_allow_population_by_field_name

---
 turms/plugins/operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 7af7856..ac4bb47 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -141,7 +141,7 @@ def generate_arguments_config(
                 ast.keyword(
                     arg="populate_by_name",
                     value=ast.Constant(
-                        value=config.options.allow_population_by_field_name
+                        value=plugin_config.arguments_allow_population_by_field_name
                     ),
                 )
             )
@@ -369,6 +369,7 @@ def generate_operation(
                     )
             else:
                 if is_optional:
+                    registry.register_import("pydantic.Field")
                     assign = ast.AnnAssign(
                         target=ast.Name(field_name, ctx=ast.Store()),
                         annotation=annotation,
-- 
2.43.0


From a92f00067f5cfc9c635f321318d5a62706a82885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 07/85] fix: inherit fragments spread inside inline fragments
 of abstract types

---
 turms/plugins/fragments.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index d674a43..bef42a3 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -265,6 +265,20 @@ def generate_fragment(
                 inline_fields = []
 
                 for field in sub_node.selection_set.selections:
+                    if isinstance(field, FragmentSpreadNode):
+                        implementation = (
+                            registry.get_interface_fragment_implementation_or_none(
+                                field.name.value, on_type_name
+                            )
+                        )
+                        implementing_class_base_classes.setdefault(
+                            on_type_name, []
+                        ).append(
+                            implementation
+                            or registry.inherit_fragment(field.name.value)
+                        )
+                        continue
+
                     if isinstance(field, FieldNode):
                         if field.name.value == "__typename":
                             continue
@@ -524,7 +538,10 @@ def generate_fragment(
                 for field in sub_node.selection_set.selections:
                     if isinstance(field, FragmentSpreadNode):
                         member_class_base_classes.setdefault(on_type_name, []).append(
-                            field.name.value
+                            registry.get_interface_fragment_implementation_or_none(
+                                field.name.value, on_type_name
+                            )
+                            or registry.inherit_fragment(field.name.value)
                         )
                         continue
 
-- 
2.43.0


From b31ab4417d9a579cfa19296cb63b392e4e068c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 08/85] fix: support object fragments spread in union fragments
 and repeated spreads

---
 turms/plugins/fragments.py | 19 +++++++++++++------
 turms/utils.py             |  7 ++++++-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index bef42a3..4fff695 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -519,12 +519,19 @@ def generate_fragment(
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
                 # Spread nodes are like inheritance
-                # We are dealing with a fragment that is a union
-                implementation_map = registry.get_union_fragment_members(
-                    sub_node.name.value
-                )
-                for k, v in implementation_map.items():
-                    member_class_base_classes.setdefault(k, []).append(v)
+                try:
+                    # We are dealing with a fragment that is a union
+                    implementation_map = registry.get_union_fragment_members(
+                        sub_node.name.value
+                    )
+                    for k, v in implementation_map.items():
+                        member_class_base_classes.setdefault(k, []).append(v)
+
+                except KeyError:
+                    x = registry.get_fragment_type(sub_node.name.value)
+                    member_class_base_classes.setdefault(x.name, []).append(
+                        registry.inherit_fragment(sub_node.name.value)
+                    )
 
             elif isinstance(sub_node, FieldNode):
                 if sub_node.name.value == "__typename":
diff --git a/turms/utils.py b/turms/utils.py
index 8afea13..b77db87 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -88,8 +88,13 @@ def merge_bases_sequences(
 ) -> list[ast.expr]:
     """Merges a list of sequences into a single sequence"""
     merged = []
+    seen = set()
     for seq in sequences:
-        merged.extend(seq)  # type: ignore
+        for base in seq:
+            # Python rejects classes that name the same base twice
+            if ast.dump(base) not in seen:
+                seen.add(ast.dump(base))
+                merged.append(base)
     return merged  # type: ignore
 
 
-- 
2.43.0


From c9473d8854fde78387f2aac016b8eea0d5da5ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:17 +0000
Subject: [PATCH 09/85] fix: keep fragment bases in a consistent order and
 accept interfaces without implementations

---
 turms/plugins/fragments.py | 15 ++++++++++++---
 turms/recurse.py           | 30 ++++++++++++++++++++++++------
 turms/registry.py          | 21 +++++++++++++++++++++
 3 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 4fff695..4530839 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -359,7 +359,9 @@ def generate_fragment(
 
             ast_base_nodes = [
                 ast.Name(id=x, ctx=ast.Load())
-                for x in implementing_class_base_classes.get(i.name, [])
+                for x in registry.sort_fragment_bases(
+                    implementing_class_base_classes.get(i.name, [])
+                )
             ]
             implementaionMap[i.name] = class_name
 
@@ -489,7 +491,12 @@ def generate_fragment(
             ast.ClassDef(
                 name,
                 bases=merge_bases_sequences(
-                    additional_bases,
+                    [
+                        ast.Name(id=base, ctx=ast.Load())
+                        for base in registry.sort_fragment_bases(
+                            [base.id for base in additional_bases]
+                        )
+                    ],
                     get_fragment_bases("OBJECT", config, plugin_config, registry),
                 ),
                 decorator_list=[],
@@ -591,7 +598,9 @@ def generate_fragment(
 
             ast_base_nodes = [
                 ast.Name(id=x, ctx=ast.Load())
-                for x in member_class_base_classes.get(i.name, [])
+                for x in registry.sort_fragment_bases(
+                    member_class_base_classes.get(i.name, [])
+                )
             ]
             implementationMap[i.name] = class_name
 
diff --git a/turms/recurse.py b/turms/recurse.py
index 5fe0014..bf06490 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -178,7 +178,12 @@ def recurse_annotation(
                     ]
 
                 if spread_fragment_bases:
-                    additional_bases = spread_fragment_bases
+                    additional_bases = [
+                        ast.Name(id=base, ctx=ast.Load())
+                        for base in registry.sort_fragment_bases(
+                            [base.id for base in spread_fragment_bases]
+                        )
+                    ]
                 else:
                     additional_bases = get_additional_bases_for_type(
                         sub_node.type_condition.name.value, config, registry
@@ -394,7 +399,9 @@ def recurse_annotation(
 
             ast_base_nodes = [
                 ast.Name(id=x, ctx=ast.Load())
-                for x in implementing_class_base_classes.get(i.name, [])
+                for x in registry.sort_fragment_bases(
+                    implementing_class_base_classes.get(i.name, [])
+                )
             ]
             implementaionMap[i.name] = class_name
 
@@ -453,10 +460,14 @@ def recurse_annotation(
         )
 
         # Resort to base class if we have no sub-fragments
-        annotated_slice = ast.Subscript(
-            value=ast.Name("Annotated", ctx=ast.Load()),
-            slice=slice,
-            ctx=ast.Load(),
+        annotated_slice = (
+            ast.Subscript(
+                value=ast.Name("Annotated", ctx=ast.Load()),
+                slice=slice,
+                ctx=ast.Load(),
+            )
+            if union_class_names
+            else ast.Name(id=mother_class_name, ctx=ast.Load())
         )
 
         if config.create_catchall:
@@ -597,6 +608,13 @@ def recurse_annotation(
             if isinstance(sub_node, InlineFragmentNode):
                 raise NotImplementedError("Inline Fragments are not yet implemented")
 
+        additional_bases = [
+            ast.Name(id=base, ctx=ast.Load())
+            for base in registry.sort_fragment_bases(
+                [base.id for base in additional_bases]
+            )
+        ]
+
         if not additional_bases:
             # We need to add the base class if we have no fragments
             additional_bases = get_additional_bases_for_type(
diff --git a/turms/registry.py b/turms/registry.py
index a53c05a..3423206 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -528,6 +528,27 @@ class ClassRegistry(object):
             )
         return self.fragment_class_map[typename]
 
+    def sort_fragment_bases(self, class_names: List[str]) -> List[str]:
+        """Orders fragment classes so that they can be inherited from together
+
+        Fragments are generated after the fragments they spread, listing the latest
+        fragment first therefore always puts subclasses in front of their bases,
+        as the method resolution order requires.
+        """
+        ranks: Dict[str, int] = {}
+        for rank, (fragmentname, classname) in enumerate(
+            self.fragment_class_map.items()
+        ):
+            ranks[classname] = rank
+            for members in (
+                self.interfacefragments_impl_map.get(fragmentname, {}),
+                self.unionfragment_members_map.get(fragmentname, {}),
+            ):
+                for member in members.values():
+                    ranks[member] = rank
+
+        return sorted(class_names, key=lambda name: -ranks.get(name, -1))
+
     def generate_node_name(self, node_name: str):
         for styler in self.stylers:
             node_name = styler.style_node_name(node_name)
-- 
2.43.0


From a10075f44cdd4b89e852b10b63e287c09284d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 10/85] fix: support enum, list, object and true defaults of
 operation variables

---
 turms/plugins/funcs.py |  3 ++-
 turms/utils.py         | 22 ++++++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index aecdc08..23d6080 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -38,6 +38,7 @@ from turms.utils import (
     is_oneof_input_type,
     non_typename_fields,
     parse_documents,
+    parse_value_node,
     recurse_outputtype_annotation,
     recurse_outputtype_label,
     recurse_type_annotation,
@@ -945,7 +946,7 @@ def generate_query_doc(
         field_description = description_map.get(v.variable.name.value, "No description")
 
         if not isinstance(v.type, NonNullTypeNode) or v.default_value:
-            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(v.default_value.value)}\n"
+            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(parse_value_node(v.default_value))}\n"
 
     extra_kwargs = get_extra_kwargs_for_onode(definition, plugin_config)
     for kwarg in extra_kwargs:
diff --git a/turms/utils.py b/turms/utils.py
index b77db87..ab679d7 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -5,6 +5,7 @@ from typing import Any, List, Optional, Sequence, Set, Union
 
 from graphql import (
     BooleanValueNode,
+    EnumValueNode,
     FloatValueNode,
     FragmentDefinitionNode,
     FragmentSpreadNode,
@@ -21,9 +22,11 @@ from graphql import (
     InlineFragmentNode,
     IntValueNode,
     ListTypeNode,
+    ListValueNode,
     NamedTypeNode,
     NonNullTypeNode,
     NullValueNode,
+    ObjectValueNode,
     OperationDefinitionNode,
     SelectionNode,
     SelectionSetNode,
@@ -934,9 +937,11 @@ def recurse_type_label(
     raise NotImplementedError("Not implemented for this type")
 
 
-def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool]:
+def parse_value_node(
+    value_node: ValueNode,
+) -> Union[None, str, int, float, bool, list, dict]:
     """Parses a Value Node into a Python value
-    using standard types
+    using standard types (enum members become their name)
 
     Args:
         value_node (ValueNode): The Argument Value Node
@@ -945,7 +950,7 @@ def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool
         NotImplementedError: If the Value Node is not supported
 
     Returns:
-        Union[None, str, int, float, bool]: The parsed value
+        Union[None, str, int, float, bool, list, dict]: The parsed value
     """
     if isinstance(value_node, IntValueNode):
         return int(value_node.value)
@@ -954,7 +959,16 @@ def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool
     elif isinstance(value_node, StringValueNode):
         return value_node.value
     elif isinstance(value_node, BooleanValueNode):
-        return value_node.value == "true"
+        return value_node.value
+    elif isinstance(value_node, EnumValueNode):
+        return value_node.value
+    elif isinstance(value_node, ListValueNode):
+        return [parse_value_node(value) for value in value_node.values]
+    elif isinstance(value_node, ObjectValueNode):
+        return {
+            field.name.value: parse_value_node(field.value)
+            for field in value_node.fields
+        }
     elif isinstance(value_node, NullValueNode):
         return None
     else:
-- 
2.43.0


From e0c0876c64d8579203efa30ed99f32bd21567bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:40 +0000
Subject: [PATCH 11/85] fix: write the generated code and not the result tuple
 in gen

---
 turms/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index e4d3c0e..405f4ed 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -243,7 +243,7 @@ def gen(
                 f"-------------- Generating project: {key} --------------"
             )
 
-            generated_code = generate(project)
+            generated_code, _ = generate(project)
 
             write_code_to_file(
                 generated_code,
-- 
2.43.0


From 6f515016ff6078504d244f5fa28760db13029d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:43 +0000
Subject: [PATCH 12/85] fix: separate concatenated schema and document files
 and read documents as utf-8

---
 turms/helpers.py |  7 ++-----
 turms/run.py     |  4 ++--
 turms/utils.py   | 10 ++++------
 3 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index 97ec390..153e6f6 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -132,11 +132,8 @@ def load_dsl_from_glob(
     if len(schema_glob) == 0:
         raise GenerationError(f"No files found for glob string {glob_string}")
 
-    dsl_string = ""
-    for file in schema_glob:
-        dsl_string += load_dsl_from_file(file)
-
-    return dsl_string
+    # Files are joined by a line break as a file may end within a comment or name
+    return "\n".join(load_dsl_from_file(file) for file in schema_glob)
 
 
 def load_introspection_from_glob(
diff --git a/turms/run.py b/turms/run.py
index 405f4ed..f6740db 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -327,7 +327,7 @@ def build_schema_from_schema_type(
             for key, value in schema.items():
                 dsl_subschemas.append(load_dsl_from_url(key, value.headers))
 
-            return build_ast_schema(parse(" ".join(dsl_subschemas)))
+            return build_ast_schema(parse("\n".join(dsl_subschemas)))
 
     if isinstance(schema, list):
         if len(schema) == 1:
@@ -348,7 +348,7 @@ def build_schema_from_schema_type(
                 if isinstance(item, str):
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
-            return build_ast_schema(parse(" ".join(dsl_subschemas)))
+            return build_ast_schema(parse("\n".join(dsl_subschemas)))
 
     if is_url(schema):
         try:
diff --git a/turms/utils.py b/turms/utils.py
index ab679d7..76fb54a 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -51,6 +51,7 @@ from turms.errors import (
     NoInputTypeFound,
     NoScalarFound,
 )
+from turms.helpers import load_dsl_from_file
 from turms.registry import ClassRegistry
 
 from .config import GraphQLTypes
@@ -520,13 +521,10 @@ def parse_documents(
 
     errors: List[GraphQLError] = []
 
-    dsl = ""
+    # Files are joined by a line break as a file may end within a comment or name
+    dsl = "\n".join(load_dsl_from_file(file) for file in x)
 
-    for file in x:
-        with open(file, "r") as f:
-            dsl += f.read()
-
-    if dsl == "":
+    if dsl.strip() == "":
         raise NoDocumentsFoundError(
             f"Glob {scan_glob} did not find documents. Or only empty documents"
         )
-- 
2.43.0


From 6fb0d781cc3d555ae069d92405ed3fbe30e52c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 13/85] fix: watch graphql files with several or no dots in
 their name

---
 turms/cli/watch.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/turms/cli/watch.py b/turms/cli/watch.py
index 0287a10..8817779 100644
--- a/turms/cli/watch.py
+++ b/turms/cli/watch.py
@@ -9,10 +9,7 @@ class GraphQLFilter(BaseFilter):  # pragma: no cover
         if not x:
             return False
 
-        x = os.path.basename(path)
-        fileending = x.split(".")[1]
-
-        return fileending == "graphql"
+        return os.path.splitext(path)[1] == ".graphql"
 
 
 def stream_changes(folder: str):  # pragma: no cover
-- 
2.43.0


From a33ae22c111415cf0c47baf3e6b1fc75df8ddb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 14/85] fix: load url entries of schema lists once and report
 unsupported config files

---
 turms/run.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/turms/run.py b/turms/run.py
index f6740db..05be25f 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -79,7 +79,7 @@ FILE_NAME_LOADERS = {
 def get_file_loader(file_name: str) -> Callable:
     try:
         return FILE_NAME_LOADERS[file_name.lower().split(".")[-1]]
-    except AttributeError as err:
+    except KeyError as err:
         raise GenerationError(
             f"File {file_name} is not supported. Please use one of {FILE_NAME_LOADERS.keys()}"
         ) from err
@@ -295,7 +295,7 @@ def instantiate(module_path: str, **kwargs):
 
 
 def is_url(url: str) -> bool:
-    return url.startswith("http") or url.startswith("https")
+    return url.startswith("http://") or url.startswith("https://")
 
 
 def build_schema_from_schema_type(
@@ -340,12 +340,12 @@ def build_schema_from_schema_type(
             dsl_subschemas = []
 
             for item in schema:
-                if is_url(item):
-                    dsl_subschemas.append(load_dsl_from_url(item))
                 if isinstance(item, dict):
                     for key, value in item.items():
                         dsl_subschemas.append(load_dsl_from_url(key, value.headers))
-                if isinstance(item, str):
+                elif is_url(item):
+                    dsl_subschemas.append(load_dsl_from_url(item))
+                else:
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
             return build_ast_schema(parse("\n".join(dsl_subschemas)))
-- 
2.43.0


From 6f100b357ba99d8e7cbedde6e1f6e5a013cbfe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 15/85] fix: make the order of generated imports and builtins
 deterministic

---
 turms/parsers/polyfill.py | 17 ++++++++++-------
 turms/registry.py         |  8 ++++----
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index 458b81d..a72d6cf 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -36,19 +36,22 @@ def polyfill_python_seven(
                     new_nodes.append(
                         ast.ImportFrom(
                             module="typing_extensions",
-                            names=[ast.alias(name=name) for name in need_extensions],
+                            names=[
+                                ast.alias(name=name) for name in sorted(need_extensions)
+                            ],
                             level=0,
                         )
                     )
 
                 okay_imports = aliases - need_extensions
-                new_nodes.append(
-                    ast.ImportFrom(
-                        names=[ast.alias(name=name) for name in okay_imports],
-                        module="typing",
-                        level=0,
+                if okay_imports:
+                    new_nodes.append(
+                        ast.ImportFrom(
+                            names=[ast.alias(name=name) for name in sorted(okay_imports)],
+                            module="typing",
+                            level=0,
+                        )
                     )
-                )
             else:
                 new_nodes.append(node)
 
diff --git a/turms/registry.py b/turms/registry.py
index 3423206..05c58e9 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -668,14 +668,14 @@ class ClassRegistry(object):
                     name.split(".")[-1]
                 )
 
-        for lone_top_import in lone_top_imports:
+        for lone_top_import in sorted(lone_top_imports):
             imports.append(ast.Import(names=[ast.alias(name=lone_top_import)]))
 
-        for top_level_name, sub_level_names in top_level.items():
+        for top_level_name, sub_level_names in sorted(top_level.items()):
             imports.append(
                 ast.ImportFrom(
                     module=top_level_name,
-                    names=[ast.alias(name=name) for name in sub_level_names],
+                    names=[ast.alias(name=name) for name in sorted(sub_level_names)],
                     level=0,
                 )
             )
@@ -686,7 +686,7 @@ class ClassRegistry(object):
         """Generate the builtins for the generated code. This is used to generate the"""
         builtins: list[ast.AST] = []
 
-        for built_in in self._builtins:
+        for built_in in sorted(self._builtins):
             node = built_in_map[built_in]
             if isinstance(node, list):
                 builtins.extend(node)
-- 
2.43.0


From cd2b89f245e37ca2f1d7eeb97bcf3ccb6f466fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 16/85] fix: keep function names valid and distinct from their
 operation class

---
 turms/plugins/funcs.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 23d6080..2e9e2e0 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import ast
 import logging
 import re
+from keyword import iskeyword
 from typing import Any, List, Optional, Tuple
 
 
@@ -103,6 +104,16 @@ def camel_to_snake(name: str) -> str:
     return re.sub("([a-z0-9])([A-Z])", r"\1_\2", name).lower()
 
 
+def escape_func_name(
+    name: str, o: OperationDefinitionNode, registry: ClassRegistry
+) -> str:
+    """Keeps the function name valid and from shadowing its own operation class
+    (which the function body refers to)."""
+    if iskeyword(name) or name == get_operation_class_name(o, registry):
+        return name + "_"
+    return name
+
+
 def generate_async_func_name(
     o: OperationDefinitionNode,
     plugin_config: FuncsPluginConfig,
@@ -111,7 +122,9 @@ def generate_async_func_name(
 ):
     if not o.name:
         raise Exception("Operation name is None")
-    return f"{plugin_config.prepend_async}{camel_to_snake(o.name.value)}"
+    return escape_func_name(
+        f"{plugin_config.prepend_async}{camel_to_snake(o.name.value)}", o, registry
+    )
 
 
 def generate_sync_func_name(
@@ -122,7 +135,9 @@ def generate_sync_func_name(
 ):
     if not o.name:  # pragma: no cover
         raise Exception("Operation name is None")
-    return f"{plugin_config.prepend_sync}{camel_to_snake(o.name.value)}"
+    return escape_func_name(
+        f"{plugin_config.prepend_sync}{camel_to_snake(o.name.value)}", o, registry
+    )
 
 
 def get_extra_args_for_onode(
-- 
2.43.0


From 015078d1d17398581ccfddb71647b4b7c254f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 17/85] fix: import Optional for extra keyword arguments of
 functions

---
 turms/plugins/funcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 2e9e2e0..7139026 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -554,6 +554,7 @@ def generate_parameters(
         if kwarg.default is None:
             # if we set the default to None, we need to make the annotation optional
             # complies with PEP 484
+            registry.register_import("typing.Optional")
             annotation = ast.Subscript(
                 value=ast.Name(id="Optional", ctx=ast.Load()),
                 slice=annotation,
-- 
2.43.0


From a1eb6626dd663397e6870c0a8b50f958e47f17f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 18/85] fix: document nested variables of functions with the
 type they are selected on

---
 turms/plugins/funcs.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 7139026..2275133 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -859,13 +859,14 @@ def estimate_variable_name(
         return
     for field in o.selection_set.selections:
         if isinstance(field, FieldNode):
+            the_field = get_field_def(client_schema, root, field)
+            if the_field is None:
+                continue
+
             for arg in field.arguments:
-                the_field = get_field_def(client_schema, root, field)
                 if isinstance(arg.value, VariableNode):
-                    if arg.value.name.value in the_field.args:
-                        mapped_description = the_field.args[
-                            arg.value.name.value
-                        ].description
+                    if arg.name.value in the_field.args:
+                        mapped_description = the_field.args[arg.name.value].description
 
                         if mapped_description:
                             if arg.value.name.value in description_map:
@@ -877,14 +878,12 @@ def estimate_variable_name(
                                     mapped_description
                                 )
 
-            for sub in non_typename_fields(field):
-                if isinstance(sub, FieldNode):
-                    estimate_variable_name(
-                        sub,
-                        client_schema,
-                        get_field_def(client_schema, root, field),
-                        description_map,
-                    )
+            estimate_variable_name(
+                field,
+                client_schema,
+                get_named_type(the_field.type),
+                description_map,
+            )
 
 
 def generate_query_doc(
-- 
2.43.0


From dc33e560decb573f813286b1afcf1b51b60d8bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 19/85] fix: request the typename when it is only selected with
 an alias

---
 turms/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 76fb54a..e89fc17 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -471,7 +471,9 @@ def add_typename_recursively(
     # Collect all existing fields in the selection set
     selections = list(selection_set.selections)
     has_typename = any(
-        isinstance(field, FieldNode) and field.name.value == "__typename"
+        isinstance(field, FieldNode)
+        and field.name.value == "__typename"
+        and field.alias is None
         for field in selections
     )
 
@@ -566,7 +568,9 @@ def auto_add_typename_field_to_fragment_str(fragment_str: str) -> str:
         if isinstance(fragment, FragmentDefinitionNode):
             selections = list(fragment.selection_set.selections)
             if not any(
-                isinstance(field, FieldNode) and field.name.value == "__typename"
+                isinstance(field, FieldNode)
+                and field.name.value == "__typename"
+                and field.alias is None
                 for field in selections
             ):
                 selections.append(
-- 
2.43.0


From 36167f2bf7d7b0e85c6357bcabc5f8373759b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 20/85] fix: make conditionally included non-null fields
 optional

---
 turms/recurse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/turms/recurse.py b/turms/recurse.py
index bf06490..eb1e4c6 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -790,6 +790,12 @@ def type_field_node(
 
     type = cast(BoundType, field.type)
 
+    # The server leaves out the field if the condition says so
+    if isinstance(type, GraphQLNonNull) and any(
+        directive.name.value in ("skip", "include") for directive in node.directives
+    ):
+        type = cast(BoundType, type.of_type)
+
     if not isinstance(type, GraphQLNonNull):
         keywords.append(ast.keyword(arg="default", value=ast.Constant(value=None)))
 
-- 
2.43.0


From 4e01edadf5aeb9099f66262eb5c86d8564950f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 21/85] fix: keep names with a leading underscore as fields

---
 turms/registry.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/turms/registry.py b/turms/registry.py
index 05c58e9..7ff5691 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -553,6 +553,10 @@ class ClassRegistry(object):
         for styler in self.stylers:
             node_name = styler.style_node_name(node_name)
 
+        if node_name.startswith("_"):
+            # pydantic does not treat names with a leading underscore as fields
+            return f"field{node_name}"
+
         if iskeyword(node_name):
             return node_name + "_"
 
@@ -562,6 +566,10 @@ class ClassRegistry(object):
         for styler in self.stylers:
             node_name = styler.style_parameter_name(node_name)
 
+        if node_name.startswith("_"):
+            # pydantic does not treat names with a leading underscore as fields
+            return f"field{node_name}"
+
         if iskeyword(node_name):
             return node_name + "_"
 
-- 
2.43.0


From a720b50e88901f3ff0de049b8a52e3e507bba0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 22/85] fix: style the discriminator of input unions like every
 other field

---
 turms/plugins/inputs.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index 010f234..bb38139 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -228,9 +228,10 @@ def generate_input_type(
     for discriminator in discriminators or []:
         registry.register_import("typing.Literal")
         registry.register_import("pydantic.Field")
+        discriminator_field = registry.generate_node_name(discriminator.discriminator)
         fields.append(
             ast.AnnAssign(
-                target=ast.Name(discriminator.discriminator, ctx=ast.Store()),
+                target=ast.Name(discriminator_field, ctx=ast.Store()),
                 annotation=ast.Subscript(
                     value=ast.Name("Literal", ctx=ast.Load()),
                     slice=ast.Constant(value=discriminator.value),
@@ -243,7 +244,17 @@ def generate_input_type(
                         ast.keyword(
                             arg="default", value=ast.Constant(value=discriminator.value)
                         )
-                    ],
+                    ]
+                    + (
+                        [
+                            ast.keyword(
+                                arg="alias",
+                                value=ast.Constant(value=discriminator.discriminator),
+                            )
+                        ]
+                        if discriminator_field != discriminator.discriminator
+                        else []
+                    ),
                 ),
                 simple=1,
             )
@@ -258,7 +269,7 @@ def generate_input_type(
 
     for value_key, value in type.fields.items():
         field_name = registry.generate_node_name(value_key)
-        if field_name in discriminator_names:
+        if value_key in discriminator_names:
             continue
         # A field is omittable (and thus optional, defaulting to None) when it is
         # nullable OR carries a schema default. For a default we no longer bake the
@@ -319,7 +330,9 @@ def generate_input_type(
         # exclude_unset dump (the proxy contract) would drop it from the wire —
         # but the server needs it to discriminate. Mark it as set on every
         # construction so it always serializes.
-        names = ", ".join(repr(d.discriminator) for d in discriminators)
+        names = ", ".join(
+            repr(registry.generate_node_name(d.discriminator)) for d in discriminators
+        )
         fields += ast.parse(
             "def model_post_init(self, context):\n"
             f"    self.__pydantic_fields_set__.update({{{names}}})\n"
@@ -690,7 +703,9 @@ def generate_inputs(
                             ast.keyword(
                                 arg="discriminator",
                                 value=ast.Constant(
-                                    union_type_discriminators[type.name]
+                                    registry.generate_node_name(
+                                        union_type_discriminators[type.name]
+                                    )
                                 ),
                             )
                         ],
-- 
2.43.0


From dde080eb36482aedec559bd23d4366371e6b65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 23/85] fix: reference the types used by members of input
 unions

---
 turms/referencer.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/turms/referencer.py b/turms/referencer.py
index e0d6c5b..1899f39 100644
--- a/turms/referencer.py
+++ b/turms/referencer.py
@@ -153,6 +153,18 @@ def recurse_find_references(
         raise Exception("Unknown Type", type(graphql_type), graphql_type)
 
 
+def is_element_of_input_union(type: GraphQLInputObjectType, union: str) -> bool:
+    """Checks if the type declares itself a member of the union with @unionElementOf"""
+    directives = type.ast_node.directives if type.ast_node else []
+    return any(
+        directive.name.value == "unionElementOf"
+        and argument.name.value == "union"
+        and argument.value.value == union
+        for directive in directives
+        for argument in directive.arguments
+    )
+
+
 def recurse_type_annotation(
     field: GraphQLInputField,
     graphql_type: NamedTypeNode,
@@ -200,6 +212,14 @@ def recurse_type_annotation(
             for key, node in graphql_type.fields.items():
                 recurse_type_annotation(node, node.type, schema, registry)
 
+            # The members of an input union are generated together with the union
+
+            for member in schema.type_map.values():
+                if isinstance(
+                    member, GraphQLInputObjectType
+                ) and is_element_of_input_union(member, graphql_type.name):
+                    recurse_type_annotation(field, member, schema, registry)
+
     else:
         raise Exception("Unknown Type", field, graphql_type)
 
-- 
2.43.0


From b1597ad25093bcbaffead4a51ec83f9d2b34705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 24/85] fix: combine repeated selections on the same member of
 a union

---
 turms/recurse.py | 53 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index eb1e4c6..6494981 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -5,6 +5,10 @@ from graphql.language.ast import (
     FieldNode,
     FragmentSpreadNode,
     InlineFragmentNode,
+    NamedTypeNode,
+    NameNode,
+    SelectionNode,
+    SelectionSetNode,
 )
 from turms.registry import ClassRegistry
 from turms.utils import (
@@ -63,6 +67,53 @@ def unique_class_name(
     return unique_name
 
 
+def merge_member_selections(
+    nodes: list[SelectionNode], registry: ClassRegistry
+) -> list[SelectionNode]:
+    """Combines the selections on the same member of a union
+
+    Every selection on a member of a union becomes a class of its own and a value is
+    parsed into one of them. If a member is selected repeatedly its selections are
+    therefore combined into one inline fragment.
+
+    Args:
+        nodes (list[SelectionNode]): The selections on the union
+        registry (ClassRegistry): The registry (used to get the type of fragments)
+
+    Returns:
+        list[SelectionNode]: The selections with at most one selection per member
+    """
+    members: Dict[str, list[SelectionNode]] = {}
+    for node in nodes:
+        if isinstance(node, InlineFragmentNode):
+            members.setdefault(node.type_condition.name.value, []).append(node)
+        elif isinstance(node, FragmentSpreadNode):
+            fragment_type = registry.fragment_type_map.get(node.name.value)
+            if isinstance(fragment_type, GraphQLObjectType):
+                members.setdefault(fragment_type.name, []).append(node)
+
+    merged = list(nodes)
+    for typename, selections in members.items():
+        if len(selections) == 1:
+            continue
+
+        inner: list[SelectionNode] = []
+        for selection in selections:
+            if isinstance(selection, InlineFragmentNode):
+                inner.extend(selection.selection_set.selections)
+            else:
+                inner.append(selection)
+
+        merged[merged.index(selections[0])] = InlineFragmentNode(
+            type_condition=NamedTypeNode(name=NameNode(value=typename)),
+            directives=(),
+            selection_set=SelectionSetNode(selections=tuple(inner)),
+        )
+        merged = [node for node in merged if not any(node is s for s in selections)]
+
+    return merged
+
+
 def recurse_annotation(
     node: FieldNode,
     parent: str,
@@ -106,7 +157,7 @@ def recurse_annotation(
     if isinstance(type, GraphQLUnionType):
         union_class_names: List[str] = []
 
-        sub_nodes = non_typename_fields(node)
+        sub_nodes = merge_member_selections(non_typename_fields(node), registry)
 
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
-- 
2.43.0


From 5ba4110e62de0766c833bce76cfde852646af5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 25/85] fix: escape enum members whose names python reserves

---
 turms/plugins/enums.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index 4106be8..0979c65 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -1,6 +1,7 @@
 from pydantic_settings import SettingsConfigDict
 from turms.plugins.base import Plugin, PluginConfig
 import ast
+import re
 from keyword import iskeyword
 from typing import List, Sequence
 from turms.config import GeneratorConfig
@@ -28,6 +29,15 @@ class EnumsPluginConfig(PluginConfig):
     append: str = ""
 
 
+def is_reserved_member_name(name: str) -> bool:
+    """Whether python does not allow (or not treat) the name as an enum member"""
+    return (
+        iskeyword(name)
+        or name == "mro"
+        or re.fullmatch("_[^_](.*[^_])?_", name) is not None
+    )
+
+
 def generate_enums(
     client_schema: GraphQLSchema,
     config: GeneratorConfig,
@@ -74,7 +84,9 @@ def generate_enums(
                 servalue = value.value.value
 
             member_name = str(value_key)
-            if iskeyword(member_name):
+            while is_reserved_member_name(member_name) or (
+                member_name != value_key and member_name in type.values
+            ):
                 member_name += "_"
 
             assign = ast.Assign(
-- 
2.43.0


From aa3b00f3cebd44eb0d5a52380d4841ca58c4b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 26/85] fix: document the deprecation reason of enum members

---
 turms/plugins/enums.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index 0979c65..6147502 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -97,7 +97,12 @@ def generate_enums(
             potential_comment = (
                 value.description
                 if not value.deprecation_reason
-                else f"DEPRECATED: {value.description}"
+                else "\n".join(
+                    filter(
+                        None,
+                        [value.description, f"DEPRECATED: {value.deprecation_reason}"],
+                    )
+                )
             )
 
             if potential_comment:
-- 
2.43.0


From 4a96e4201b699cbec10ea997ecf46db4288b0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:53 +0000
Subject: [PATCH 27/85] fix: honour the capitalize options of the capitalize
 styler

---
 turms/stylers/capitalize.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/turms/stylers/capitalize.py b/turms/stylers/capitalize.py
index 85a0c3d..c3e871a 100644
--- a/turms/stylers/capitalize.py
+++ b/turms/stylers/capitalize.py
@@ -3,7 +3,7 @@ from turms.stylers.base import BaseStyler
 
 
 class CapitalizeSylerConfig(BaseModel):
-    type: str = "turms.stylers.capitalize.CapitalizerSyler"
+    type: str = "turms.stylers.capitalize.CapitalizeStyler"
     capitalize_fragment: bool = True
     capitalize_query: bool = True
     capitalize_mutation: bool = True
@@ -18,19 +18,31 @@ class CapitalizeStyler(BaseStyler):
     config: CapitalizeSylerConfig = Field(default_factory=CapitalizeSylerConfig)
 
     def style_fragment_name(self, typename):
+        if not self.config.capitalize_fragment:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_query_name(self, typename):
+        if not self.config.capitalize_query:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_subscription_name(self, typename):
+        if not self.config.capitalize_subscription:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_mutation_name(self, typename):
+        if not self.config.capitalize_mutation:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_input_name(self, typename):
+        if not self.config.capitalize_input:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_enum_name(self, typename):
+        if not self.config.capitalize_enum:
+            return typename
         return typename[0].upper() + typename[1:]
-- 
2.43.0


From 9d44b5071868aefd5f33fc46ad1649f9ebe63610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:47 +0000
Subject: [PATCH 28/85] fix: freeze and configure operations by their kind

---
 turms/plugins/operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index ac4bb47..aa31537 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -2,7 +2,7 @@ import ast
 from typing import List, Optional
 
 from pydantic_settings import SettingsConfigDict
-from turms.config import GeneratorConfig
+from turms.config import GeneratorConfig, GraphQLTypes
 from graphql import GraphQLSchema, InputObjectTypeDefinitionNode
 from graphql.language.ast import OperationDefinitionNode, OperationType
 from turms.recurse import type_field_node
@@ -455,7 +455,9 @@ def generate_operation(
             type_params=[],
             body=merge_body_sequences(
                 class_body_fields,
-                generate_pydantic_config(o.operation, config, registry),
+                generate_pydantic_config(
+                    GraphQLTypes(o.operation.value), config, registry
+                ),
             ),
         )
     )
-- 
2.43.0


From 4fd8343e96dd41307f7cf29d028f2846f46d486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:34 +0000
Subject: [PATCH 29/85] fix: configure result models by their type and honour
 convert_list_to_tuple

---
 turms/plugins/fragments.py | 21 +++++++++++++++++----
 turms/recurse.py           | 20 ++++++++++++++++----
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 4530839..9441dfe 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -314,8 +314,12 @@ def generate_fragment(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                mother_class_fields if mother_class_fields else [ast.Pass()]
-            ),
+                mother_class_fields,
+                generate_pydantic_config(
+                    GraphQLTypes.FRAGMENT, config, registry, type.name
+                ),
+            )
+            or [ast.Pass()],
         )
 
         catch_class_name = f"{base_fragment_name}Catch"
@@ -384,6 +388,9 @@ def generate_fragment(
                         generate_typename_field(i.name, registry, config),
                     ],
                     inline_fields,
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, i.name
+                    ),
                 ),
             )
 
@@ -504,7 +511,9 @@ def generate_fragment(
                 type_params=[],
                 body=merge_body_sequences(
                     fields,
-                    generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry),
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, type.name
+                    ),
                     meta_body,
                 ),
             )
@@ -616,7 +625,11 @@ def generate_fragment(
                 keywords=[],
                 type_params=[],
                 body=merge_body_sequences(
-                    [generate_typename_field(i.name, registry, config)], inline_fields
+                    [generate_typename_field(i.name, registry, config)],
+                    inline_fields,
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, i.name
+                    ),
                 ),
             )
 
diff --git a/turms/recurse.py b/turms/recurse.py
index 6494981..e00f639 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -248,7 +248,10 @@ def recurse_annotation(
                 merged_body = merge_body_sequences(
                     this_inline_fragment_fields,
                     generate_pydantic_config(
-                        GraphQLTypes.FRAGMENT, config, registry
+                        GraphQLTypes.FRAGMENT,
+                        config,
+                        registry,
+                        sub_node.type_condition.name.value,
                     ),
                 )
                 if not merged_body:
@@ -429,7 +432,10 @@ def recurse_annotation(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                body, generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry)
+                body,
+                generate_pydantic_config(
+                    GraphQLTypes.FRAGMENT, config, registry, type.name
+                ),
             ),
         )
         subtree.append(mother_class)
@@ -477,6 +483,9 @@ def recurse_annotation(
                         generate_typename_field(i.name, registry, config),
                     ],
                     inline_fields,
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, i.name
+                    ),
                 ),
             )
 
@@ -687,7 +696,10 @@ def recurse_annotation(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                body, generate_pydantic_config(GraphQLTypes.OBJECT, config, registry)
+                body,
+                generate_pydantic_config(
+                    GraphQLTypes.OBJECT, config, registry, type.name
+                ),
             ),
         )
 
@@ -745,7 +757,7 @@ def recurse_annotation(
         )
 
     if isinstance(type, GraphQLList):
-        if config.freeze.enabled:
+        if config.freeze.enabled and config.freeze.convert_list_to_tuple:
             registry.register_import("typing.Tuple")
 
             def list_builder(x: ast.Name | ast.Subscript | ast.Constant):
-- 
2.43.0


From 8333a40bdfde6b61a721a1218fd1a414b942c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:14 +0000
Subject: [PATCH 30/85] fix: use the pydantic v2 names of the allow_mutation
 and orm_mode options

---
 turms/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index e89fc17..dbfc562 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -249,11 +249,14 @@ def generate_config_dict(
             elif config.options.include and typename not in config.options.include:
                 pass
             else:
-                if config.options.allow_mutation is not None:
+                if config.options.allow_mutation is not None and not any(
+                    keyword.arg == "frozen" for keyword in config_keywords
+                ):
+                    # pydantic v2 calls models that do not allow mutation frozen
                     config_keywords.append(
                         ast.keyword(
-                            arg="allow_mutation",
-                            value=ast.Constant(value=config.options.allow_mutation),
+                            arg="frozen",
+                            value=ast.Constant(value=not config.options.allow_mutation),
                         )
                     )
 
@@ -287,7 +290,7 @@ def generate_config_dict(
                 if config.options.orm_mode is not None:
                     config_keywords.append(
                         ast.keyword(
-                            arg="orm_mode",
+                            arg="from_attributes",
                             value=ast.Constant(value=config.options.orm_mode),
                         )
                     )
-- 
2.43.0


From 0e16f22417473add5e37b0bc0f594c2458dd5d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 31/85] fix: let additional_config take precedence over the
 general model options

---
 turms/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turms/utils.py b/turms/utils.py
index dbfc562..16b9acb 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -306,6 +306,10 @@ def generate_config_dict(
     if typename:
         if typename in config.additional_config:
             for key, value in config.additional_config[typename].items():
+                # The config of the type takes precedence over the general options
+                config_keywords = [
+                    keyword for keyword in config_keywords if keyword.arg != key
+                ]
                 config_keywords.append(
                     ast.keyword(arg=key, value=ast.Constant(value=value))
                 )
-- 
2.43.0


From 2d5a9ba9cb1a5ac114580172b6d6d4ebb03a84e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:55 +0000
Subject: [PATCH 32/85] fix: do not read unprefixed environment variables into
 options

---
 turms/config.py          | 4 ++++
 turms/parsers/base.py    | 4 +++-
 turms/plugins/base.py    | 4 +++-
 turms/processors/base.py | 4 +++-
 turms/stylers/base.py    | 4 +++-
 5 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/turms/config.py b/turms/config.py
index 0082b8a..0510771 100644
--- a/turms/config.py
+++ b/turms/config.py
@@ -109,6 +109,8 @@ class FreezeConfig(BaseSettings):
 
     """
 
+    model_config = SettingsConfigDict(env_prefix="TURMS_FREEZE_")
+
     enabled: bool = Field(
         default=False, description="Enabling this, will freeze the schema"
     )
@@ -154,6 +156,8 @@ class OptionsConfig(BaseSettings):
 
     """
 
+    model_config = SettingsConfigDict(env_prefix="TURMS_OPTIONS_")
+
     enabled: bool = Field(
         default=False, description="Enabling this, will freeze the schema"
     )
diff --git a/turms/parsers/base.py b/turms/parsers/base.py
index 039ad60..90f4ae9 100644
--- a/turms/parsers/base.py
+++ b/turms/parsers/base.py
@@ -5,7 +5,9 @@ from pydantic_settings import BaseSettings, SettingsConfigDict
 
 
 class ParserConfig(BaseSettings):
-    model_config = SettingsConfigDict(extra="forbid")
+    model_config = SettingsConfigDict(
+        extra="forbid", env_prefix="TURMS_PARSERS_"
+    )
     type: str
 
 
diff --git a/turms/plugins/base.py b/turms/plugins/base.py
index fedfd90..4ade448 100644
--- a/turms/plugins/base.py
+++ b/turms/plugins/base.py
@@ -12,7 +12,9 @@ from turms.registry import ClassRegistry
 
 
 class PluginConfig(BaseSettings):
-    model_config = SettingsConfigDict(extra="forbid")
+    model_config = SettingsConfigDict(
+        extra="forbid", env_prefix="TURMS_PLUGINS_"
+    )
     type: str
 
 
diff --git a/turms/processors/base.py b/turms/processors/base.py
index 1ab6f47..d77317c 100644
--- a/turms/processors/base.py
+++ b/turms/processors/base.py
@@ -6,7 +6,9 @@ from turms.config import GeneratorConfig
 
 
 class ProcessorConfig(BaseSettings):
-    model_config = SettingsConfigDict(extra="forbid")
+    model_config = SettingsConfigDict(
+        extra="forbid", env_prefix="TURMS_PROCESSORS_"
+    )
     type: str
 
 
diff --git a/turms/stylers/base.py b/turms/stylers/base.py
index 08bdd96..ffcbf4c 100644
--- a/turms/stylers/base.py
+++ b/turms/stylers/base.py
@@ -5,7 +5,9 @@ from pydantic_settings import BaseSettings, SettingsConfigDict
 
 
 class StylerConfig(BaseSettings):
-    model_config = SettingsConfigDict(extra="forbid")
+    model_config = SettingsConfigDict(
+        extra="forbid", env_prefix="TURMS_STYLERS_"
+    )
     type: str
 
 
-- 
2.43.0


From 0c62564eaa46ebf84628dc9458e710899fc344d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:56 +0000
Subject: [PATCH 33/85] fix: refuse unknown options of the capitalize styler

---
 turms/stylers/capitalize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turms/stylers/capitalize.py b/turms/stylers/capitalize.py
index c3e871a..c378b37 100644
--- a/turms/stylers/capitalize.py
+++ b/turms/stylers/capitalize.py
@@ -1,8 +1,8 @@
-from pydantic import BaseModel, Field
-from turms.stylers.base import BaseStyler
+from pydantic import Field
+from turms.stylers.base import BaseStyler, StylerConfig
 
 
-class CapitalizeSylerConfig(BaseModel):
+class CapitalizeSylerConfig(StylerConfig):
     type: str = "turms.stylers.capitalize.CapitalizeStyler"
     capitalize_fragment: bool = True
     capitalize_query: bool = True
-- 
2.43.0


From 7f774ca297b60877f30b097cbb918ac048b4cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 34/85] fix: do not read the environment variable PROJECTS into
 multi project configurations

---
 turms/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/config.py b/turms/config.py
index 0510771..aee4012 100644
--- a/turms/config.py
+++ b/turms/config.py
@@ -458,6 +458,7 @@ class GraphQLConfigMultiple(BaseSettings):
     the graphql-config specification for multiple projec."""
 
     model_config = SettingsConfigDict(
+        env_prefix="TURMS_GRAPHQL_",
         extra="allow",
     )
 
-- 
2.43.0


From 8cc9f81a507d908262de7119e3f2b2ec289a1d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:52 +0000
Subject: [PATCH 35/85] fix: escape messages of failing projects in the
 progress output

---
 turms/cli/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 0556907..e136aa6 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -9,6 +9,7 @@ from turms.run import generate, write_code_to_file, write_project, write_schema_
 from rich import get_console
 from rich.panel import Panel
 from rich.live import Live
+from rich.markup import escape
 from rich.tree import Tree
 from rich.console import Group
 import rich_click as click
@@ -221,7 +222,7 @@ def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms")
 
             def log(message: str, level: str = "INFO"):
                 if level == "WARN":
-                    project_tree.add(Tree(message, style="yellow"))
+                    project_tree.add(Tree(escape(message), style="yellow"))
 
             try:
                 generated_code, schema = generate(project, log=log)
@@ -252,7 +253,7 @@ def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms")
             except Exception as e:
                 project_tree.style = "red"
                 project_tree.label = f"{key} 💥"
-                project_tree.add(Tree(str(e), style="red"))
+                project_tree.add(Tree(escape(str(e)), style="red"))
                 if project.extensions.turms.exit_on_error:
                     raised_exceptions.append(e)
                 live.update(panel)
@@ -358,7 +359,7 @@ def watch_projects(projects, title="Turms"):  # pragma: no cover
                 live.update(panel)
 
             except Exception as e:
-                tree.renderable = f"[red] {str(e)} [/],"
+                tree.renderable = f"[red] {escape(str(e))} [/],"
                 tree.border_style = "not bold red"
                 tree.style = "not bold red"
                 live.update(panel)
-- 
2.43.0


From fb6700f8a93409152ea20d1f121b0d8643042ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:52 +0000
Subject: [PATCH 36/85] fix: write downloaded schemas as utf-8

---
 turms/cli/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index e136aa6..59ffb59 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -450,7 +450,9 @@ def download(projects, out, dir):
             schema = build_schema_from_schema_type(
                 project.schema_url, allow_introspection=True
             )
-            with open(os.path.join(app_directory, filename), "w") as f:
+            with open(
+                os.path.join(app_directory, filename), "w", encoding="utf-8"
+            ) as f:
                 f.write(print_schema(schema))
     except Exception as e:
         raise click.ClickException(str(e)) from e
-- 
2.43.0


From f80184d6662105af805e70e0388480db4837a690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:52 +0000
Subject: [PATCH 37/85] fix: dump configurations with the keys of
 graphql-config

---
 turms/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index 05be25f..c6b7b0a 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -214,7 +214,7 @@ def write_project(project: GraphQLProject, outdir: str, filepath: str):
         "w",
         encoding="utf-8",
     ) as file:
-        file.write(project.model_dump_json(indent=4))
+        file.write(project.model_dump_json(indent=4, by_alias=True))
 
     return generated_file
 
-- 
2.43.0


From 4d768dd9dc98fdc2d33accb507086ee2b6cea950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:10 +0000
Subject: [PATCH 38/85] fix: generate interfaces after the interfaces they
 implement

---
 turms/plugins/objects.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 1fa36c0..7055f29 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -224,12 +224,17 @@ def generate_types(
         or isinstance(value, GraphQLInterfaceType)
     }
 
+    # Interfaces come first, and interfaces follow the interfaces they implement
+    # (as an interface lists all interfaces it implements, it lists more of them)
     sorted_objects = {
         k: v
         for k, v in sorted(
             objects.items(),
-            key=lambda item: isinstance(item[1], GraphQLInterfaceType),
-            reverse=True,
+            key=lambda item: (
+                (0, len(item[1].interfaces))
+                if isinstance(item[1], GraphQLInterfaceType)
+                else (1, 0)
+            ),
         )
     }
 
-- 
2.43.0


From 8b6796481fe4c25fbb4a9ba79613a13e1fcd93cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:05 +0000
Subject: [PATCH 39/85] fix: style the names of interfaces defined by the
 objects plugin

---
 turms/plugins/objects.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 7055f29..3a4607e 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -382,7 +382,11 @@ def generate_types(
         registry.register_import("typing.Union")
         tree.append(
             ast.Assign(
-                targets=[ast.Name(id=interface, ctx=ast.Store())],
+                targets=[
+                    ast.Name(
+                        id=registry.interface_reference_map[interface], ctx=ast.Store()
+                    )
+                ],
                 value=ast.Subscript(
                     value=ast.Name("Union", ctx=ast.Load()),
                     slice=ast.Tuple(
@@ -412,7 +416,12 @@ def generate_types(
             registry.warn(f"Interface {interface} has no types implementing it")
             tree.append(
                 ast.Assign(
-                    targets=[ast.Name(id=interface, ctx=ast.Store())],
+                    targets=[
+                        ast.Name(
+                            id=registry.interface_reference_map[interface],
+                            ctx=ast.Store(),
+                        )
+                    ],
                     value=ast.Name(baseclass, ctx=ast.Load()),
                 )
             )
-- 
2.43.0


From 614abf977ba77a9c6d6d42d3f99e6325861e29f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:37 +0000
Subject: [PATCH 40/85] fix: import the object bases of nested models

---
 turms/recurse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/turms/recurse.py b/turms/recurse.py
index e00f639..1ca2e47 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -240,6 +240,9 @@ def recurse_annotation(
                         sub_node.type_condition.name.value, config, registry
                     )
 
+                for base in config.object_bases:
+                    registry.register_import(base)
+
                 config_bases = [
                     ast.Name(id=base.split(".")[-1], ctx=ast.Load())
                     for base in config.object_bases
@@ -683,6 +686,9 @@ def recurse_annotation(
 
         body = pick_fields if pick_fields else [ast.Pass()]
 
+        for base in config.object_bases:
+            registry.register_import(base)
+
         cls = ast.ClassDef(
             object_class_name,
             bases=merge_bases_sequences(
-- 
2.43.0


From 32191572b07c35ba9155223a604c68a83c55ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:32 +0000
Subject: [PATCH 41/85] fix: do not repeat the bases of interfaces on the types
 implementing them

---
 turms/plugins/objects.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 3a4607e..12094a1 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -250,9 +250,21 @@ def generate_types(
 
     for key, object_type in sorted_objects.items():
 
-        additional_bases = get_additional_bases_for_type(
-            object_type.name, config, registry
-        )
+        # Bases of the interfaces are inherited: naming them before the interface
+        # again would leave no consistent method resolution order
+        inherited_bases = {
+            base
+            for interface in object_type.interfaces
+            for base in config.additional_bases.get(interface.name, [])
+        }
+        additional_bases = [
+            ast_base
+            for base, ast_base in zip(
+                config.additional_bases.get(object_type.name, []),
+                get_additional_bases_for_type(object_type.name, config, registry),
+            )
+            if base not in inherited_bases
+        ]
 
         if plugin_config.skip_underscore and key.startswith("_"):
             continue
-- 
2.43.0


From d1ed37d5ff1ef308ee0c3c1d78f46d5c7250c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:32 +0000
Subject: [PATCH 42/85] fix: give the members of union fragments the additional
 bases of their type

---
 turms/plugins/fragments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 9441dfe..c410372 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -619,6 +619,7 @@ def generate_fragment(
                 class_name,
                 bases=merge_bases_sequences(
                     ast_base_nodes,
+                    get_additional_bases_for_type(i.name, config, registry),
                     get_fragment_bases("UNION", config, plugin_config, registry),
                 ),
                 decorator_list=[],
-- 
2.43.0


From f2c251fb49b17b3939de65317101d495ea516e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:00 +0000
Subject: [PATCH 43/85] fix: keep the comments at the start and the end of a
 merged file

---
 turms/processors/merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 5a90b04..77ae0e9 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -220,7 +220,8 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
         for missingkey in missing_symbols:
             updated_body.append(symbols[missingkey])
 
-    md = cst.Module(body=updated_body)
+    # the existing module also carries the comments around its statements
+    md = existing_module.with_changes(body=updated_body)
 
     return md.code
 
-- 
2.43.0


From 257cd248462bd370794cc044f196cc3309bd621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:00 +0000
Subject: [PATCH 44/85] fix: keep functions async and the comments above them
 when merging

---
 turms/processors/merge.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 77ae0e9..5b81526 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -21,7 +21,13 @@ def merge_functions(generated: cst.FunctionDef, existing: cst.FunctionDef):
 
     # we want to merge the body of the new function into the existing one
 
-    new_def = generated.with_changes(body=existing.body)
+    # a body that awaits is only valid in a function that is still async
+    new_def = generated.with_changes(
+        body=existing.body,
+        asynchronous=generated.asynchronous or existing.asynchronous,
+        leading_lines=existing.leading_lines or generated.leading_lines,
+        lines_after_decorators=existing.lines_after_decorators,
+    )
     return new_def
 
 
-- 
2.43.0


From 744f0ac7db002439def2fe12237b702dd40e64c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:35 +0000
Subject: [PATCH 45/85] fix: merge the assignments of generated code (enum
 members and scalars)

---
 turms/processors/merge.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 5b81526..ce2e6d1 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -12,6 +12,10 @@ def retrieve_symbol_name(simple_statement: cst.SimpleStatementLine):
     for node in simple_statement.body:
         if isinstance(node, cst.AnnAssign):
             return node.target.value
+        if isinstance(node, cst.Assign) and isinstance(
+            node.targets[0].target, cst.Name
+        ):
+            return node.targets[0].target.value
     else:
         return None
 
@@ -36,6 +40,11 @@ def merge_statements(
 ):
     # merge the two statements
 
+    # only fields (annotated statements) are updated, other assignments (like the
+    # members of enums) could have been edited
+    if not isinstance(existing.body[0], cst.AnnAssign):
+        return existing
+
     # we want to merge the body of the new statement into the existing one
 
     new_def = existing.with_changes(body=generated.body)
@@ -161,6 +170,12 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
             symbols[node.name.value] = node
             new_symbols.add(node.name.value)
 
+        if isinstance(node, cst.SimpleStatementLine):
+            name = retrieve_symbol_name(node)
+            if name is not None:
+                symbols[name] = node
+                new_symbols.add(name)
+
     symbol_position = {}
 
     for node in existing_module.body:
@@ -186,6 +201,13 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
             else:
                 new_body.append(node)
 
+        elif isinstance(node, cst.SimpleStatementLine):
+            name = retrieve_symbol_name(node)
+            if name in symbols and name not in implemented_symbols:
+                symbol_position[name] = len(new_body)
+                implemented_symbols.append(name)
+            new_body.append(node)
+
         else:
             new_body.append(node)
 
-- 
2.43.0


From cdd83cf57de5db1ad96851756af994c6bf408fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:35 +0000
Subject: [PATCH 46/85] fix: merge the imports of generated code

---
 turms/processors/merge.py | 65 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index ce2e6d1..fffb177 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -143,6 +143,67 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     return new_class
 
 
+def is_import(node: cst.BaseStatement) -> bool:
+    return isinstance(node, cst.SimpleStatementLine) and isinstance(
+        node.body[0], (cst.Import, cst.ImportFrom)
+    )
+
+
+def split_imports(node: cst.SimpleStatementLine):
+    """Splits an import statement into one statement for each imported name"""
+    for statement in node.body:
+        if not isinstance(statement, (cst.Import, cst.ImportFrom)):
+            continue
+        if isinstance(statement.names, cst.ImportStar):
+            yield statement
+            continue
+        for alias in statement.names:
+            alias = alias.with_changes(comma=cst.MaybeSentinel.DEFAULT)
+            changes = {"names": [alias]}
+            if isinstance(statement, cst.ImportFrom):
+                changes.update(lpar=None, rpar=None)
+            yield statement.with_changes(**changes)
+
+
+def merge_imports(generated: cst.Module, body: list) -> list:
+    """Adds the imports of the generated code which the body does not have yet"""
+
+    def key(statement):
+        return cst.Module(body=[]).code_for_node(statement)
+
+    present = {
+        key(statement)
+        for node in body
+        if is_import(node)
+        for statement in split_imports(node)
+    }
+
+    missing = [
+        statement
+        for node in generated.body
+        if is_import(node)
+        for statement in split_imports(node)
+        if key(statement) not in present
+    ]
+
+    # insert behind the first block of imports, or the docstring of the module
+    index = next((i for i, node in enumerate(body) if is_import(node)), None)
+    if index is None:
+        index = int(
+            bool(body)
+            and isinstance(body[0], cst.SimpleStatementLine)
+            and isinstance(body[0].body[0], cst.Expr)
+        )
+    while index < len(body) and is_import(body[index]):
+        index += 1
+
+    return [
+        *body[:index],
+        *(cst.SimpleStatementLine(body=[statement]) for statement in missing),
+        *body[index:],
+    ]
+
+
 class MergeProcessorConfig(ProcessorConfig):
     type: str = "turms.processors.merge.MergeProcessor"
 
@@ -249,7 +310,9 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
             updated_body.append(symbols[missingkey])
 
     # the existing module also carries the comments around its statements
-    md = existing_module.with_changes(body=updated_body)
+    md = existing_module.with_changes(
+        body=merge_imports(new_module, updated_body)
+    )
 
     return md.code
 
-- 
2.43.0


From d6d4bfd529ac29405672b4008dc76ba0ba9c71f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:55 +0000
Subject: [PATCH 47/85] fix: merge the bases of generated classes

---
 turms/processors/merge.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index fffb177..a402e29 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -51,6 +51,26 @@ def merge_statements(
     return new_def
 
 
+def merge_bases(generated: cst.ClassDef, existing: cst.ClassDef):
+    # add the bases which the generated class has gained, each in front of the
+    # generated base that follows it
+    def key(arg):
+        return cst.Module(body=[]).code_for_node(arg.value)
+
+    bases = list(existing.bases)
+    following = None
+    for arg in reversed(generated.bases):
+        names = [key(base) for base in bases]
+        if key(arg) not in names:
+            position = names.index(following) if following else len(bases)
+            bases.insert(
+                position, arg.with_changes(comma=cst.MaybeSentinel.DEFAULT)
+            )
+        following = key(arg)
+
+    return bases
+
+
 def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     # merge the two classes
     body_symbols = OrderedDict()
@@ -137,6 +157,7 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
             updated_body.append(body_symbols[missingkey])
 
     new_class = existing.with_changes(
+        bases=merge_bases(generated, existing),
         body=existing_indented_block.with_changes(body=updated_body)
     )
 
-- 
2.43.0


From 3885a98240249f65188e856b11b89935a40b8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:08 +0000
Subject: [PATCH 48/85] fix: merge into classes written on one line

---
 turms/processors/merge.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index a402e29..aeb9ed0 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -20,6 +20,16 @@ def retrieve_symbol_name(simple_statement: cst.SimpleStatementLine):
         return None
 
 
+def as_block(body: cst.BaseSuite) -> cst.IndentedBlock:
+    """The block of a class, also if it is written behind the colon"""
+    if isinstance(body, cst.SimpleStatementSuite):
+        return cst.IndentedBlock(
+            header=body.trailing_whitespace,
+            body=[cst.SimpleStatementLine(body=[s]) for s in body.body],
+        )
+    return body
+
+
 def merge_functions(generated: cst.FunctionDef, existing: cst.FunctionDef):
     # merge the two functions
 
@@ -77,7 +87,7 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     body_implemented_symbols = []
     body_symbol_position = OrderedDict()
 
-    generated_indented_block = generated.body
+    generated_indented_block = as_block(generated.body)
 
     for node in generated_indented_block.body:
         if isinstance(node, cst.FunctionDef):
@@ -88,7 +98,7 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
             if retrieve_symbol_name(node) is not None:
                 body_symbols[x] = node
 
-    existing_indented_block = existing.body
+    existing_indented_block = as_block(existing.body)
 
     new_body = []
 
-- 
2.43.0


From 68e4dc37bfea68ade7ac3f65fac376c950c2ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:27 +0000
Subject: [PATCH 49/85] fix: generate strawberry interfaces after the
 interfaces they implement

---
 turms/plugins/strawberry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 8ba983e..0b6e3ac 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -849,12 +849,17 @@ def generate_types(
         or isinstance(value, GraphQLInterfaceType)
     }
 
+    # Interfaces come first, and interfaces follow the interfaces they implement
+    # (as an interface lists all interfaces it implements, it lists more of them)
     sorted_objects = {
         k: v
         for k, v in sorted(
             objects.items(),
-            key=lambda item: isinstance(item[1], GraphQLInterfaceType),
-            reverse=True,
+            key=lambda item: (
+                (0, len(item[1].interfaces))
+                if isinstance(item[1], GraphQLInterfaceType)
+                else (1, 0)
+            ),
         )
     }
     registry.register_import("strawberry")
-- 
2.43.0


From 0176b6aa1440e1dd07a4892b0d0fb0a693f5d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 50/85] fix: keep strawberry arguments with a default nullable

---
 turms/plugins/strawberry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 0b6e3ac..6e637c7 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -967,7 +967,7 @@ def generate_types(
                                 config,
                                 plugin_config,
                                 registry=registry,
-                                is_optional=arg.default_value == Undefined,
+                                is_optional=True,
                             ),
                         )
                     )
-- 
2.43.0


From bfe4d4ff3758e319ab73403d9bae456bfcda79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:51 +0000
Subject: [PATCH 51/85] fix: keep the defaults of strawberry input fields

---
 turms/plugins/strawberry.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 6e637c7..ed41684 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -783,6 +783,18 @@ def generate_inputs(
                     )
                 )
 
+            if value.default_value is not Undefined:
+                default = convert_default_value_to_ast(value.default_value)
+                if isinstance(default, (ast.List, ast.Dict)):
+                    keywords.append(
+                        ast.keyword(
+                            arg="default_factory",
+                            value=ast.Lambda(args=[], body=default),
+                        )
+                    )
+                else:
+                    keywords.append(ast.keyword(arg="default", value=default))
+
             if keywords:
                 assign_value = ast.Call(
                     func=ast.Name(
-- 
2.43.0


From fd881b576768f51b90b71fa27764d8db6b89488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:08 +0000
Subject: [PATCH 52/85] fix: escape strawberry enum members whose names python
 reserves

---
 turms/plugins/strawberry.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index ed41684..0b31319 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -26,6 +26,7 @@ from graphql import (
 from pydantic_settings import SettingsConfigDict
 
 from turms.plugins.base import Plugin, PluginConfig
+from turms.plugins.enums import is_reserved_member_name
 import ast
 from typing import Dict, List, Protocol, runtime_checkable
 from turms.config import GeneratorConfig, ImportableFunctionMixin
@@ -327,9 +328,27 @@ def default_generate_enums(
             else:
                 servalue = value.value.value
 
+            member_name = str(value_key)
+            member_value = ast.Constant(value=servalue)
+
+            while is_reserved_member_name(member_name) or (
+                member_name != value_key and member_name in type.values
+            ):
+                member_name += "_"
+
+            if member_name != value_key:
+                registry.register_import("strawberry")
+                member_value = ast.Call(
+                    func=ast.Name(id="strawberry.enum_value", ctx=ast.Load()),
+                    keywords=[
+                        ast.keyword(arg="name", value=ast.Constant(value=value_key))
+                    ],
+                    args=[member_value],
+                )
+
             assign = ast.Assign(
-                targets=[ast.Name(id=str(value_key), ctx=ast.Store())],
-                value=ast.Constant(value=servalue),
+                targets=[ast.Name(id=member_name, ctx=ast.Store())],
+                value=member_value,
             )
 
             potential_comment = (
-- 
2.43.0


From 30b9fc1c51967de05069fd22e4d67d44d75cd664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:50 +0000
Subject: [PATCH 53/85] fix: document the deprecation reason of strawberry enum
 members

---
 turms/plugins/strawberry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 0b31319..67932ea 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -354,7 +354,12 @@ def default_generate_enums(
             potential_comment = (
                 value.description
                 if not value.deprecation_reason
-                else f"DEPRECATED: {value.description}"
+                else "\n".join(
+                    filter(
+                        None,
+                        [value.description, f"DEPRECATED: {value.deprecation_reason}"],
+                    )
+                )
             )
 
             if potential_comment:
-- 
2.43.0


From 28264bdf433d57a14087422341a5bdf36f400035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 54/85] fix: take the lines above merged functions from the
 generated code, as before

---
 turms/processors/merge.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index aeb9ed0..92cc979 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -39,8 +39,6 @@ def merge_functions(generated: cst.FunctionDef, existing: cst.FunctionDef):
     new_def = generated.with_changes(
         body=existing.body,
         asynchronous=generated.asynchronous or existing.asynchronous,
-        leading_lines=existing.leading_lines or generated.leading_lines,
-        lines_after_decorators=existing.lines_after_decorators,
     )
     return new_def
 
-- 
2.43.0


From c01f4fa1ba924981ac1bd98bef538fa92c46a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:58 +0000
Subject: [PATCH 55/85] fix: generate strawberry directives with executable
 locations, enum arguments, numbers and optional arguments

---
 turms/plugins/strawberry.py | 58 +++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 67932ea..0f5627c 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -3,8 +3,10 @@ from graphql import (
     ConstListValueNode,
     ConstObjectValueNode,
     ConstValueNode,
+    DirectiveLocation,
     EnumValueNode,
     FloatValueNode,
+    GraphQLDirective,
     GraphQLField,
     GraphQLInputObjectType,
     GraphQLInterfaceType,
@@ -46,6 +48,18 @@ from turms.utils import (
 from turms.config import GraphQLTypes
 
 
+EXECUTABLE_LOCATIONS = (
+    DirectiveLocation.QUERY,
+    DirectiveLocation.MUTATION,
+    DirectiveLocation.SUBSCRIPTION,
+    DirectiveLocation.FIELD,
+    DirectiveLocation.FRAGMENT_DEFINITION,
+    DirectiveLocation.FRAGMENT_SPREAD,
+    DirectiveLocation.INLINE_FRAGMENT,
+    DirectiveLocation.VARIABLE_DEFINITION,
+)
+
+
 @runtime_checkable
 class StrawberryGenerateFunc(ImportableFunctionMixin, Protocol):
     def __call__(
@@ -57,7 +71,7 @@ class StrawberryGenerateFunc(ImportableFunctionMixin, Protocol):
     ) -> List[ast.AST]: ...  # pragma: no cover
 
 
-def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry, is_optional=True):
+def build_directive_type_annotation(value: GraphQLType, parent: str, registry: ClassRegistry, is_optional=True):
 
     if isinstance(value, GraphQLScalarType):
         if is_optional:
@@ -80,13 +94,13 @@ def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry,
             registry.register_import("typing.Optional")
             return ast.Subscript(
                 value=ast.Name("Optional", ctx=ast.Load()),
-                slice=registry.reference_enum(value.name),
+                slice=registry.reference_enum(value.name, parent),
                 ctx=ast.Load(),
             )
 
-        return registry.reference_enum(value.name)
+        return registry.reference_enum(value.name, parent)
     if isinstance(value, GraphQLNonNull):
-        return build_directive_type_annotation(value.of_type, registry, is_optional=False)
+        return build_directive_type_annotation(value.of_type, parent, registry, is_optional=False)
     if isinstance(value, GraphQLList):
         registry.register_import("typing.List")
 
@@ -97,7 +111,7 @@ def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry,
                 value=ast.Name("Optional", ctx=ast.Load()),
                 slice=ast.Subscript(
                     value=ast.Name("List", ctx=ast.Load()),
-                    slice=build_directive_type_annotation(value.of_type, registry, is_optional=True),
+                    slice=build_directive_type_annotation(value.of_type, parent, registry, is_optional=True),
                     ctx=ast.Load(),
                 ),
                 ctx=ast.Load(),
@@ -105,7 +119,7 @@ def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry,
 
         return ast.Subscript(
             value=ast.Name("List", ctx=ast.Load()),
-            slice=build_directive_type_annotation(value.of_type, registry, is_optional=True),
+            slice=build_directive_type_annotation(value.of_type, parent, registry, is_optional=True),
             ctx=ast.Load(),
         )
     if isinstance(value, GraphQLInputObjectType):
@@ -121,14 +135,14 @@ def convert_valuenode_to_ast(value: ConstValueNode):
     if isinstance(value, StringValueNode):
         return ast.Constant(value=value.value)
     if isinstance(value, IntValueNode):
-        return ast.Constant(value=value.value)
+        return ast.Constant(value=int(value.value))
     if isinstance(value, FloatValueNode):
-        return ast.Constant(value=value.value)
+        return ast.Constant(value=float(value.value))
     if isinstance(value, BooleanValueNode):
         return ast.Constant(value=value.value)
 
     if isinstance(value, EnumValueNode):
-        return ast.Constant(value=value)
+        return ast.Constant(value=value.value)
     if isinstance(value, ListValueNode):
         return ast.List(elts=[convert_valuenode_to_ast(x) for x in value.values], ctx=ast.Load())
     if isinstance(value, ObjectValueNode):
@@ -137,7 +151,7 @@ def convert_valuenode_to_ast(value: ConstValueNode):
         values = []
 
         for field in value.fields:
-            keys.append(field.name.value)
+            keys.append(ast.Constant(value=field.name.value))
             values.append(convert_valuenode_to_ast(field.value))
 
         return ast.Dict(
@@ -153,6 +167,16 @@ def convert_valuenode_to_ast(value: ConstValueNode):
 
 
 
+def schema_locations(directive: GraphQLDirective) -> List[DirectiveLocation]:
+    """The locations of a directive in schemas (the locations in documents are
+    unknown to strawberry)"""
+    return [
+        location
+        for location in directive.locations
+        if location not in EXECUTABLE_LOCATIONS
+    ]
+
+
 def default_generate_directives(
     client_schema: GraphQLSchema,
     config: GeneratorConfig,
@@ -167,6 +191,7 @@ def default_generate_directives(
         directive
         for directive in directives
         if directive.name not in plugin_config.builtin_directives
+        and schema_locations(directive)
     ]
 
     if not generatable_directives:
@@ -194,7 +219,7 @@ def default_generate_directives(
                             attr=location.name,
                             ctx=ast.Load(),
                         )
-                        for location in directive.locations
+                        for location in schema_locations(directive)
                     ],
                     ctx=ast.Load(),
                 ),
@@ -206,10 +231,9 @@ def default_generate_directives(
 
             type = value.type
 
-            if value.default_value is not None:
-                default = convert_default_value_to_ast(value.default_value)
-            else:
-                default = None
+            default = convert_default_value_to_ast(value.default_value)
+            if default is None and not isinstance(type, GraphQLNonNull):
+                default = ast.Name(id="strawberry.UNSET", ctx=ast.Load())
 
             needs_factory = False
             if isinstance(default, ast.List):
@@ -251,7 +275,9 @@ def default_generate_directives(
                 target=ast.Name(
                     id=registry.generate_node_name(value_key), ctx=ast.Store()
                 ),
-                annotation=build_directive_type_annotation(type, registry),
+                annotation=build_directive_type_annotation(
+                    type, directive.name, registry
+                ),
                 value=field_value,
                 simple=1,
             )
-- 
2.43.0


From c5ae98f6cd8aa470a79e645758a2e7ddf6ec260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:58 +0000
Subject: [PATCH 56/85] fix: keep the directives of strawberry input fields

---
 turms/plugins/strawberry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 0f5627c..a13e399 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -833,6 +833,8 @@ def generate_inputs(
                     )
                 )
 
+            keywords += generate_directive_keywords(value.ast_node, plugin_config)
+
             if value.default_value is not Undefined:
                 default = convert_default_value_to_ast(value.default_value)
                 if isinstance(default, (ast.List, ast.Dict)):
-- 
2.43.0


From 1a79d75c9af9f2c47460ac5a8049b472e5312710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:58 +0000
Subject: [PATCH 57/85] fix: let generate_scalars of the strawberry plugin
 decide on scalars

---
 turms/plugins/strawberry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index a13e399..803cde2 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -1255,7 +1255,7 @@ class StrawberryPlugin(Plugin):
 
         scalars = (
             generate_scalars(client_schema, config, self.config, registry)
-            if self.config.generate_directives
+            if self.config.generate_scalars
             else []
         )
 
-- 
2.43.0


From 23011de2a6755815b55a1ad1d9f4edb710f1a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:58 +0000
Subject: [PATCH 58/85] fix: use the types_bases and import the inputtype_bases
 of the strawberry plugin

---
 turms/plugins/strawberry.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 803cde2..9ac2f2c 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -781,6 +781,9 @@ def generate_inputs(
 ):
     tree = []
 
+    for base in plugin_config.inputtype_bases:
+        registry.register_import(base)
+
     inputobjects_type = {
         key: value
         for key, value in client_schema.type_map.items()
@@ -927,6 +930,8 @@ def generate_types(
         )
     }
     registry.register_import("strawberry")
+    for base in plugin_config.types_bases:
+        registry.register_import(base)
 
     interface_map: Dict[str, List[str]] = (
         {}
@@ -1128,7 +1133,11 @@ def generate_types(
         tree.append(
             ast.ClassDef(
                 classname,
-                bases=additional_bases,
+                bases=additional_bases
+                + [
+                    ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                    for base in plugin_config.types_bases
+                ],
                 decorator_list=[decorator],
                 keywords=[],
                 body=fields
-- 
2.43.0


From 3676395ffb91b07e4cd32f0d8a30f60b61186c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:58 +0000
Subject: [PATCH 59/85] fix: generate the resolvers of renamed strawberry root
 types

---
 turms/plugins/strawberry.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 9ac2f2c..156c599 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -933,6 +933,10 @@ def generate_types(
     for base in plugin_config.types_bases:
         registry.register_import(base)
 
+    query_type = client_schema.query_type
+    mutation_type = client_schema.mutation_type
+    subscription_type = client_schema.subscription_type
+
     interface_map: Dict[str, List[str]] = (
         {}
     )  # A list of interfaces with the union classes attached
@@ -1062,7 +1066,11 @@ def generate_types(
 
             keywords += generate_directive_keywords(value.ast_node, plugin_config)
 
-            if not additional_args and key not in ["Mutation", "Subscription", "Query"]:
+            if not additional_args and object_type not in (
+                query_type,
+                mutation_type,
+                subscription_type,
+            ):
                 if not keywords:
                     assign_value = None
                 else:
@@ -1086,11 +1094,11 @@ def generate_types(
                 )
 
             else:
-                if key == "Mutation":
+                if object_type is mutation_type:
                     decorator_name = ast.Name(id="strawberry.mutation", ctx=ast.Load())
                     function_def = ast.FunctionDef
                     returns = returns
-                elif key == "Subscription":
+                elif object_type is subscription_type:
                     registry.register_import("typing.AsyncGenerator")
                     decorator_name = ast.Name(
                         id="strawberry.subscription", ctx=ast.Load()
-- 
2.43.0


From 37784004dae22f38904b4f964556520187998250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:49 +0000
Subject: [PATCH 60/85] fix: let strawberry resolvers accept omitted optional
 arguments

---
 turms/plugins/strawberry.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 156c599..a65a30f 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -22,6 +22,7 @@ from graphql import (
     ObjectValueNode,
     StringValueNode,
     Undefined,
+    is_required_argument,
     GraphQLArgument,
     ObjectTypeDefinitionNode,
 )
@@ -1021,11 +1022,12 @@ def generate_types(
             additional_args = []
             kwdefaults = []
             if value.args:
+                # Arguments which can be omitted follow the required ones
                 sorted_args = {
                     key: value
                     for key, value in sorted(
                         value.args.items(),
-                        key=lambda item: item[1].default_value == Undefined,
+                        key=lambda item: is_required_argument(item[1]),
                         reverse=True,
                     )
                 }
@@ -1045,8 +1047,12 @@ def generate_types(
                         )
                     )
 
-                    if arg.default_value != Undefined:
+                    if arg.default_value is not Undefined:
                         kwdefaults.append(ast.Constant(value=arg.default_value))
+                    elif not is_required_argument(arg):
+                        kwdefaults.append(
+                            ast.Name(id="strawberry.UNSET", ctx=ast.Load())
+                        )
 
             body = []
 
-- 
2.43.0


From 165845f92747deb9b166322c1af505b9e60b30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:57 +0000
Subject: [PATCH 61/85] fix: style the arguments of applied strawberry
 directives

---
 turms/plugins/strawberry.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index a65a30f..8375db8 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -325,7 +325,7 @@ def default_generate_enums(
     }
 
     for key, type in enum_types.items():
-        directive_keywords = generate_directive_keywords(type.ast_node, plugin_config)
+        directive_keywords = generate_directive_keywords(type.ast_node, plugin_config, registry)
         if directive_keywords:
             decorator = ast.Call(
                 func=ast.Name(id="strawberry.enum", ctx=ast.Load()),
@@ -737,7 +737,9 @@ def recurse_argument_annotation(
 
 
 def generate_directive_keywords(
-    ast_node: ObjectTypeDefinitionNode, plugin_config: StrawberryPluginConfig
+    ast_node: ObjectTypeDefinitionNode,
+    plugin_config: StrawberryPluginConfig,
+    registry: ClassRegistry,
 ):
     if not ast_node:
         return []
@@ -756,7 +758,10 @@ def generate_directive_keywords(
                     ctx=ast.Load(),
                 ),
                 keywords=[
-                    ast.keyword(arg=arg.name.value, value=convert_valuenode_to_ast(arg.value))
+                    ast.keyword(
+                        arg=registry.generate_node_name(arg.name.value),
+                        value=convert_valuenode_to_ast(arg.value),
+                    )
                     for arg in directive.arguments
                 ],
                 args=[],
@@ -795,7 +800,7 @@ def generate_inputs(
         if plugin_config.skip_underscore and key.startswith("_"):  # pragma: no cover
             continue
 
-        decorator_keywords = generate_directive_keywords(type.ast_node, plugin_config)
+        decorator_keywords = generate_directive_keywords(type.ast_node, plugin_config, registry)
         if is_oneof_input_type(type):
             decorator_keywords.append(
                 ast.keyword(arg="one_of", value=ast.Constant(value=True))
@@ -837,7 +842,7 @@ def generate_inputs(
                     )
                 )
 
-            keywords += generate_directive_keywords(value.ast_node, plugin_config)
+            keywords += generate_directive_keywords(value.ast_node, plugin_config, registry)
 
             if value.default_value is not Undefined:
                 default = convert_default_value_to_ast(value.default_value)
@@ -957,7 +962,7 @@ def generate_types(
             continue
 
         directive_keywords = generate_directive_keywords(
-            object_type.ast_node, plugin_config
+            object_type.ast_node, plugin_config, registry
         )
 
         if isinstance(object_type, GraphQLObjectType):
@@ -1070,7 +1075,7 @@ def generate_types(
                 is_optional=True,
             )
 
-            keywords += generate_directive_keywords(value.ast_node, plugin_config)
+            keywords += generate_directive_keywords(value.ast_node, plugin_config, registry)
 
             if not additional_args and object_type not in (
                 query_type,
@@ -1182,7 +1187,7 @@ def generate_scalars(
 
     for key, scalar in objects.items():
         keywords = []
-        keywords += generate_directive_keywords(scalar.ast_node, plugin_config)
+        keywords += generate_directive_keywords(scalar.ast_node, plugin_config, registry)
         if scalar.description:
             keywords.append(
                 ast.keyword(
-- 
2.43.0


From d33dc98af518d9b08fee804fd3a632c36334ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 62/85] fix: serve the names of the schema where strawberry
 would derive other names

---
 turms/plugins/strawberry.py | 117 +++++++++++++++++++++++++-----------
 1 file changed, 82 insertions(+), 35 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 8375db8..fbeb2cd 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -227,10 +227,14 @@ def default_generate_directives(
             )
         )
 
+        keywords += generate_name_keywords(directive.name, directive.name)
+
         for value_key, value in directive.args.items():
             value: GraphQLArgument
 
             type = value.type
+            field_name = registry.generate_node_name(value_key)
+            field_keywords = generate_name_keywords(field_name, value_key)
 
             default = convert_default_value_to_ast(value.default_value)
             if default is None and not isinstance(type, GraphQLNonNull):
@@ -256,7 +260,7 @@ def default_generate_directives(
                                     args=[], body=default
                                 ),
                             ),
-                        ],
+                        ] + field_keywords,
                         args=[],
                     )
                 else:
@@ -267,15 +271,19 @@ def default_generate_directives(
                                 arg="default",
                                 value=default,
                             ),
-                        ],
+                        ] + field_keywords,
                         args=[],
                     )
+            elif field_keywords:
+                field_value = ast.Call(
+                    func=ast.Name(id="strawberry.field", ctx=ast.Load()),
+                    keywords=field_keywords,
+                    args=[],
+                )
 
 
             assign = ast.AnnAssign(
-                target=ast.Name(
-                    id=registry.generate_node_name(value_key), ctx=ast.Store()
-                ),
+                target=ast.Name(id=field_name, ctx=ast.Store()),
                 annotation=build_directive_type_annotation(
                     type, directive.name, registry
                 ),
@@ -325,16 +333,6 @@ def default_generate_enums(
     }
 
     for key, type in enum_types.items():
-        directive_keywords = generate_directive_keywords(type.ast_node, plugin_config, registry)
-        if directive_keywords:
-            decorator = ast.Call(
-                func=ast.Name(id="strawberry.enum", ctx=ast.Load()),
-                keywords=directive_keywords,
-                args=[],
-            )
-        else:
-            decorator = ast.Name(id="strawberry.enum", ctx=ast.Load())
-
         if plugin_config.skip_underscore and key.startswith("_"):
             continue
 
@@ -343,6 +341,22 @@ def default_generate_enums(
 
         classname = registry.generate_enum(key)
 
+        decorator_keywords = generate_directive_keywords(
+            type.ast_node, plugin_config, registry
+        )
+        if classname != key:
+            decorator_keywords.append(
+                ast.keyword(arg="name", value=ast.Constant(value=key))
+            )
+        if decorator_keywords:
+            decorator = ast.Call(
+                func=ast.Name(id="strawberry.enum", ctx=ast.Load()),
+                keywords=decorator_keywords,
+                args=[],
+            )
+        else:
+            decorator = ast.Name(id="strawberry.enum", ctx=ast.Load())
+
         fields = (
             [ast.Expr(value=ast.Constant(value=type.description))]
             if type.description
@@ -736,6 +750,16 @@ def recurse_argument_annotation(
     raise NotImplementedError(f"Unknown input type {repr(graphql_type)}")
 
 
+def generate_name_keywords(python_name: str, graphql_name: str):
+    """Names a definition explicitly if strawberry would derive another name
+    from its python name (by converting it to camel case)"""
+    first, *others = python_name.split("_")
+    if first + "".join(x.capitalize() or "_" for x in others) == graphql_name:
+        return []
+
+    return [ast.keyword(arg="name", value=ast.Constant(value=graphql_name))]
+
+
 def generate_directive_keywords(
     ast_node: ObjectTypeDefinitionNode,
     plugin_config: StrawberryPluginConfig,
@@ -805,6 +829,8 @@ def generate_inputs(
             decorator_keywords.append(
                 ast.keyword(arg="one_of", value=ast.Constant(value=True))
             )
+        name = registry.generate_inputtype(key)
+        decorator_keywords += generate_name_keywords(name, key)
         if decorator_keywords:
             decorator = ast.Call(
                 func=ast.Name(id="strawberry.input", ctx=ast.Load()),
@@ -815,7 +841,6 @@ def generate_inputs(
             decorator = ast.Name(id="strawberry.input", ctx=ast.Load())
 
         additional_bases = get_additional_bases_for_type(type.name, config, registry)
-        name = registry.generate_inputtype(key)
         fields = (
             [ast.Expr(value=ast.Constant(value=type.description))]
             if type.description
@@ -825,7 +850,8 @@ def generate_inputs(
         for value_key, value in type.fields.items():
             value: GraphQLField
 
-            keywords = []
+            field_name = registry.generate_node_name(value_key)
+            keywords = generate_name_keywords(field_name, value_key)
             if value.description:
                 keywords.append(
                     ast.keyword(
@@ -869,9 +895,7 @@ def generate_inputs(
                 assign_value = None
 
             assign = ast.AnnAssign(
-                target=ast.Name(
-                    registry.generate_node_name(value_key), ctx=ast.Store()
-                ),
+                target=ast.Name(field_name, ctx=ast.Store()),
                 annotation=recurse_argument_annotation(
                     value.type,
                     name,
@@ -973,6 +997,8 @@ def generate_types(
             decorator_name = "strawberry.interface"
             interface_base_map[key] = classname
 
+        directive_keywords += generate_name_keywords(classname, key)
+
         if directive_keywords:
             decorator = ast.Call(
                 func=ast.Name(id=decorator_name, ctx=ast.Load()),
@@ -1006,7 +1032,8 @@ def generate_types(
         for value_key, value in object_type.fields.items():
             value: GraphQLField
 
-            keywords = []
+            field_name = registry.generate_node_name(value_key)
+            keywords = generate_name_keywords(field_name, value_key)
 
             if value.description:
                 keywords.append(
@@ -1038,18 +1065,39 @@ def generate_types(
                 }
 
                 for argkey, arg in sorted_args.items():
-                    additional_args.append(
-                        ast.arg(
-                            arg=registry.generate_parameter_name(argkey),
-                            annotation=recurse_argument_annotation(
-                                arg.type,
-                                classname,
-                                config,
-                                plugin_config,
-                                registry=registry,
-                                is_optional=True,
+                    parameter_name = registry.generate_parameter_name(argkey)
+                    annotation = recurse_argument_annotation(
+                        arg.type,
+                        classname,
+                        config,
+                        plugin_config,
+                        registry=registry,
+                        is_optional=True,
+                    )
+
+                    argument_keywords = generate_name_keywords(parameter_name, argkey)
+                    if argument_keywords:
+                        registry.register_import("typing.Annotated")
+                        annotation = ast.Subscript(
+                            value=ast.Name(id="Annotated", ctx=ast.Load()),
+                            slice=ast.Tuple(
+                                elts=[
+                                    annotation,
+                                    ast.Call(
+                                        func=ast.Name(
+                                            id="strawberry.argument", ctx=ast.Load()
+                                        ),
+                                        keywords=argument_keywords,
+                                        args=[],
+                                    ),
+                                ],
+                                ctx=ast.Load(),
                             ),
+                            ctx=ast.Load(),
                         )
+
+                    additional_args.append(
+                        ast.arg(arg=parameter_name, annotation=annotation)
                     )
 
                     if arg.default_value is not Undefined:
@@ -1096,9 +1144,7 @@ def generate_types(
 
                 # lets create a simple field
                 assign = ast.AnnAssign(
-                    target=ast.Name(
-                        registry.generate_node_name(value_key), ctx=ast.Store()
-                    ),
+                    target=ast.Name(field_name, ctx=ast.Store()),
                     annotation=returns,
                     value=assign_value,
                     simple=1,
@@ -1134,7 +1180,7 @@ def generate_types(
                 )
 
                 assign = function_def(
-                    name=registry.generate_node_name(value_key),
+                    name=field_name,
                     returns=returns,
                     args=ast.arguments(
                         args=[ast.arg(arg="self")] + additional_args,
@@ -1188,6 +1234,7 @@ def generate_scalars(
     for key, scalar in objects.items():
         keywords = []
         keywords += generate_directive_keywords(scalar.ast_node, plugin_config, registry)
+        keywords += generate_name_keywords(key, key)
         if scalar.description:
             keywords.append(
                 ast.keyword(
-- 
2.43.0


From 0e6b4eb782765308484afb35e9bb660ed14f1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:27 +0000
Subject: [PATCH 63/85] fix: serve unions under their names in strawberry
 schemas

---
 turms/plugins/strawberry.py | 72 ++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index fbeb2cd..6c05793 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -496,50 +496,50 @@ def generate_object_field_annotation(
         return registry.reference_object(graphql_type.name, parent)
 
     if isinstance(graphql_type, GraphQLUnionType):
-        if is_optional:
-            registry.register_import("typing.Optional")
-            registry.register_import("typing.Union")
-            return ast.Subscript(
-                value=ast.Name("Optional", ctx=ast.Load()),
-                slice=ast.Subscript(
-                    value=ast.Name("Union", ctx=ast.Load()),
-                    slice=ast.Tuple(
-                        elts=[
-                            generate_object_field_annotation(
-                                union_type,
-                                parent,
-                                config,
-                                plugin_config,
-                                registry,
-                                is_optional=False,
-                            )
-                            for union_type in graphql_type.types
-                        ],
-                        ctx=ast.Load(),
-                    ),
-                ),
-                ctx=ast.Load(),
-            )
         registry.register_import("typing.Union")
-
-        return ast.Subscript(
-            value=ast.Name("Union", ctx=ast.Load()),
+        registry.register_import("typing.Annotated")
+        # strawberry would otherwise derive the name of the union from its members
+        union = ast.Subscript(
+            value=ast.Name("Annotated", ctx=ast.Load()),
             slice=ast.Tuple(
                 elts=[
-                    generate_object_field_annotation(
-                        union_type,
-                        parent,
-                        config,
-                        plugin_config,
-                        registry,
-                        is_optional=False,
-                    )
-                    for union_type in graphql_type.types
+                    ast.Subscript(
+                        value=ast.Name("Union", ctx=ast.Load()),
+                        slice=ast.Tuple(
+                            elts=[
+                                generate_object_field_annotation(
+                                    union_type,
+                                    parent,
+                                    config,
+                                    plugin_config,
+                                    registry,
+                                    is_optional=False,
+                                )
+                                for union_type in graphql_type.types
+                            ],
+                            ctx=ast.Load(),
+                        ),
+                        ctx=ast.Load(),
+                    ),
+                    ast.Call(
+                        func=ast.Name(id="strawberry.union", ctx=ast.Load()),
+                        args=[ast.Constant(value=graphql_type.name)],
+                        keywords=[],
+                    ),
                 ],
                 ctx=ast.Load(),
             ),
             ctx=ast.Load(),
         )
+        if is_optional:
+            registry.register_import("typing.Optional")
+            return ast.Subscript(
+                value=ast.Name("Optional", ctx=ast.Load()),
+                slice=union,
+                ctx=ast.Load(),
+            )
+
+        return union
 
     if isinstance(graphql_type, GraphQLEnumType):
         if is_optional:
-- 
2.43.0


From 19de757c8051f58dd0f47d478031262516166583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:26 +0000
Subject: [PATCH 64/85] fix: pipe code through commands and ruff as utf-8

---
 turms/processors/command.py | 2 +-
 turms/processors/ruff.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/turms/processors/command.py b/turms/processors/command.py
index 5454d67..1dee81f 100644
--- a/turms/processors/command.py
+++ b/turms/processors/command.py
@@ -44,7 +44,7 @@ class CommandProcessor(Processor):
             command,
             input=gen_file,
             capture_output=True,
-            text=True,
+            encoding="utf-8",
         )
         if result.returncode != 0:
             raise RuntimeError(
diff --git a/turms/processors/ruff.py b/turms/processors/ruff.py
index 37df3f6..59a59bd 100644
--- a/turms/processors/ruff.py
+++ b/turms/processors/ruff.py
@@ -31,7 +31,7 @@ class RuffProcessor(Processor):
             [sys.executable, "-m", "ruff", *args, "-"],
             input=gen_file,
             capture_output=True,
-            text=True,
+            encoding="utf-8",
         )
         if result.returncode != 0:
             raise RuntimeError(
-- 
2.43.0


From 84808ee53f3287ae3816b95db6e4f9d011742dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:26 +0000
Subject: [PATCH 65/85] fix: read the code to merge into as utf-8

---
 turms/processors/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 92cc979..fff05b0 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -378,7 +378,7 @@ class MergeProcessor(Processor):
             return gen_file
 
         # the one we want to merge into
-        with open(old_generated_file) as f:
+        with open(old_generated_file, encoding="utf-8") as f:
             existing_code = f.read()
 
         return merge_code(existing_code, gen_file, self.config)
-- 
2.43.0


From 6c0c623b5f5f1366b05a8ebf52bb420292363daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:24 +0000
Subject: [PATCH 66/85] fix: let ruff fix code with findings it can not fix

---
 turms/processors/ruff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/processors/ruff.py b/turms/processors/ruff.py
index 59a59bd..5644d2d 100644
--- a/turms/processors/ruff.py
+++ b/turms/processors/ruff.py
@@ -42,7 +42,7 @@ class RuffProcessor(Processor):
     def run(self, gen_file: str, config: GeneratorConfig):
         if self.config.fix:
             gen_file = self._run_ruff(
-                ["check", "--fix", "--quiet", "--stdin-filename", "generated.py"],
+                ["check", "--fix-only", "--quiet", "--stdin-filename", "generated.py"],
                 gen_file,
             )
         if self.config.format:
-- 
2.43.0


From 12ef106a1d198c720f85c9b2784736ecee3a6725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 67/85] fix: send GraphQL variables named variables

---
 turms/plugins/funcs.py | 51 ++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 2275133..eb04cb3 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -577,6 +577,14 @@ def generate_parameters(
     )
 
 
+def free_local_name(name: str, arguments: ast.arguments) -> str:
+    """Returns a name for a local variable that hides none of the parameters."""
+    parameters = {arg.arg for arg in arguments.args}
+    while name in parameters:
+        name += "_"
+    return name
+
+
 def _guarded_variable_assign(
     target_subscript: ast.Subscript,
     param_name: str,
@@ -600,6 +608,7 @@ def generate_variable_assignments(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     client_schema: GraphQLSchema,
+    variables_name: str = "variables",
 ):
     """Builds the statements that assemble the ``variables`` dict for an
     operation, omitting any argument the caller left as ``UNSET``. Combined with
@@ -608,7 +617,7 @@ def generate_variable_assignments(
     stmts = []
     stmts.append(
         ast.AnnAssign(
-            target=ast.Name(id="variables", ctx=ast.Store()),
+            target=ast.Name(id=variables_name, ctx=ast.Store()),
             annotation=dict_str_any_annotation(registry),
             value=ast.Dict(keys=[], values=[]),
             simple=1,
@@ -620,7 +629,7 @@ def generate_variable_assignments(
         is_required = isinstance(v.type, NonNullTypeNode) and not v.default_value
 
         outer_subscript = ast.Subscript(
-            value=ast.Name(id="variables", ctx=ast.Load()),
+            value=ast.Name(id=variables_name, ctx=ast.Load()),
             slice=ast.Constant(value=gql_name),
             ctx=ast.Store(),
         )
@@ -983,6 +992,7 @@ def genereate_async_call(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     collapse=False,
+    variables_name: str = "variables",
 ):
     registry.register_import(definition.use)
 
@@ -1002,7 +1012,7 @@ def genereate_async_call(
                     )
                     + [
                         generate_document_arg(o, registry),
-                        ast.Name(id="variables", ctx=ast.Load()),
+                        ast.Name(id=variables_name, ctx=ast.Load()),
                     ],
                 )
             )
@@ -1030,7 +1040,7 @@ def genereate_async_call(
                         )
                         + [
                             generate_document_arg(o, registry),
-                            ast.Name(id="variables", ctx=ast.Load()),
+                            ast.Name(id=variables_name, ctx=ast.Load()),
                         ],
                     )
                 ),
@@ -1048,6 +1058,7 @@ def genereate_sync_call(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     collapse=False,
+    variables_name: str = "variables",
 ):
     registry.register_import(definition.use)
     if not collapse:
@@ -1063,7 +1074,7 @@ def genereate_sync_call(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             )
         )
@@ -1089,7 +1100,7 @@ def genereate_sync_call(
                     )
                     + [
                         generate_document_arg(o, registry),
-                        ast.Name(id="variables", ctx=ast.Load()),
+                        ast.Name(id=variables_name, ctx=ast.Load()),
                     ],
                 ),
                 attr=registry.generate_node_name(correct_attr),
@@ -1106,6 +1117,7 @@ def genereate_async_iterator(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     collapse=False,
+    variables_name: str = "variables",
 ):
     registry.register_import(definition.use)
     if not collapse:
@@ -1122,7 +1134,7 @@ def genereate_async_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             ),
             body=[
@@ -1150,7 +1162,7 @@ def genereate_async_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             ),
             body=[
@@ -1176,6 +1188,7 @@ def genereate_sync_iterator(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     collapse=False,
+    variables_name: str = "variables",
 ):
     registry.register_import(definition.use)
     if not collapse:
@@ -1192,7 +1205,7 @@ def genereate_sync_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             ),
             body=[
@@ -1220,7 +1233,7 @@ def genereate_sync_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             ),
             body=[
@@ -1263,8 +1276,12 @@ def generate_operation_func(
         definition, o, client_schema, config, plugin_config, registry, collapse
     )
 
+    arguments = generate_parameters(
+        definition, o, config, plugin_config, registry, client_schema
+    )
+    variables_name = free_local_name("variables", arguments)
     var_assignments = generate_variable_assignments(
-        o, plugin_config, registry, client_schema
+        o, plugin_config, registry, client_schema, variables_name
     )
 
     if definition.is_async:
@@ -1274,9 +1291,7 @@ def generate_operation_func(
         tree.append(
             ast.AsyncFunctionDef(
                 name=generate_async_func_name(o, plugin_config, config, registry),
-                args=generate_parameters(
-                    definition, o, config, plugin_config, registry, client_schema
-                ),
+                args=arguments,
                 body=[
                     doc,
                     *var_assignments,
@@ -1289,6 +1304,7 @@ def generate_operation_func(
                             plugin_config,
                             registry,
                             collapse,
+                            variables_name,
                         )
                         if definition.type != OperationType.SUBSCRIPTION
                         else genereate_async_iterator(
@@ -1299,6 +1315,7 @@ def generate_operation_func(
                             plugin_config,
                             registry,
                             collapse,
+                            variables_name,
                         )
                     ),
                 ],
@@ -1321,9 +1338,7 @@ def generate_operation_func(
         tree.append(
             ast.FunctionDef(
                 name=generate_sync_func_name(o, plugin_config, config, registry),
-                args=generate_parameters(
-                    definition, o, config, plugin_config, registry, client_schema
-                ),
+                args=arguments,
                 body=[
                     doc,
                     *var_assignments,
@@ -1336,6 +1351,7 @@ def generate_operation_func(
                             plugin_config,
                             registry,
                             collapse,
+                            variables_name,
                         )
                         if definition.type != OperationType.SUBSCRIPTION
                         else genereate_sync_iterator(
@@ -1346,6 +1362,7 @@ def generate_operation_func(
                             plugin_config,
                             registry,
                             collapse,
+                            variables_name,
                         )
                     ),
                 ],
-- 
2.43.0


From f932fd6ceaf7310bcda3b5a0576ae97fb44e6182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 68/85] fix: let callers omit input fields with a default value

---
 turms/plugins/funcs.py       | 5 +++--
 turms/plugins/input_funcs.py | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index eb04cb3..246d389 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -50,6 +50,7 @@ from graphql import (
     GraphQLInputObjectType,
     GraphQLList,
     GraphQLNonNull,
+    is_required_input_field,
     GraphQLScalarType,
 )
 
@@ -427,7 +428,7 @@ def generate_input_type_params(
     for value_key, value in input_type.fields.items():
         field_name = registry.generate_node_name(value_key)
 
-        if isinstance(value.type, GraphQLNonNull):
+        if is_required_input_field(value):
             pos_args.append(
                 ast.arg(
                     arg=field_name,
@@ -661,7 +662,7 @@ def generate_variable_assignments(
                     ctx=ast.Store(),
                 )
                 field_value = ast.Name(id=field_param, ctx=ast.Load())
-                if isinstance(field.type, GraphQLNonNull):
+                if is_required_input_field(field):
                     # required field → always present (positional parameter)
                     stmts.append(
                         ast.Assign(targets=[field_subscript], value=field_value)
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 0164dcc..da28346 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -15,7 +15,11 @@ plugin; the input model / pydantic performs the coercion.
 import ast
 from typing import Dict, List
 
-from graphql import GraphQLInputObjectType, GraphQLNonNull, GraphQLSchema
+from graphql import (
+    GraphQLInputObjectType,
+    GraphQLSchema,
+    is_required_input_field,
+)
 from pydantic import Field
 from pydantic_settings import SettingsConfigDict
 
@@ -98,7 +102,7 @@ def generate_input_func(
         )
         param_value = ast.Name(id=field_param, ctx=ast.Load())
 
-        if isinstance(value.type, GraphQLNonNull):
+        if is_required_input_field(value):
             # required -> always present
             body.append(ast.Assign(targets=[subscript], value=param_value))
         else:
-- 
2.43.0


From 3ce50ae120e95ff2d6afd5961d71de7b5fb387b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 69/85] fix: build inputs with a field named data

---
 turms/plugins/input_funcs.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index da28346..a048339 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -27,6 +27,7 @@ from turms.config import GeneratorConfig, PythonType
 from turms.plugins.base import Plugin, PluginConfig
 from turms.plugins.funcs import (
     dict_str_any_annotation,
+    free_local_name,
     generate_input_type_descriptions,
     generate_input_type_params,
 )
@@ -73,6 +74,15 @@ def generate_input_func(
         input_type, plugin_config, registry
     )
 
+    arguments = ast.arguments(
+        args=pos_args + kw_args,
+        posonlyargs=[],
+        kwonlyargs=[],
+        kw_defaults=[],
+        defaults=kw_values,
+    )
+    data_name = free_local_name("data", arguments)
+
     body: List[ast.stmt] = []
 
     if plugin_config.extract_documentation:
@@ -84,7 +94,7 @@ def generate_input_func(
     # data: Dict[str, Any] = {}
     body.append(
         ast.AnnAssign(
-            target=ast.Name(id="data", ctx=ast.Store()),
+            target=ast.Name(id=data_name, ctx=ast.Store()),
             annotation=dict_str_any_annotation(registry),
             value=ast.Dict(keys=[], values=[]),
             simple=1,
@@ -96,7 +106,7 @@ def generate_input_func(
         # Key by the GraphQL field name (the model's alias) so construction works
         # regardless of populate_by_name.
         subscript = ast.Subscript(
-            value=ast.Name(id="data", ctx=ast.Load()),
+            value=ast.Name(id=data_name, ctx=ast.Load()),
             slice=ast.Constant(value=value_key),
             ctx=ast.Store(),
         )
@@ -131,7 +141,7 @@ def generate_input_func(
                 func=ast.Name(id=class_name, ctx=ast.Load()),
                 args=[],
                 keywords=[
-                    ast.keyword(arg=None, value=ast.Name(id="data", ctx=ast.Load()))
+                    ast.keyword(arg=None, value=ast.Name(id=data_name, ctx=ast.Load()))
                 ],
             )
         )
@@ -139,13 +149,7 @@ def generate_input_func(
 
     return ast.FunctionDef(
         name=func_name,
-        args=ast.arguments(
-            args=pos_args + kw_args,
-            posonlyargs=[],
-            kwonlyargs=[],
-            kw_defaults=[],
-            defaults=kw_values,
-        ),
+        args=arguments,
         body=body,
         decorator_list=[],
         returns=ast.Name(id=class_name, ctx=ast.Load()),
-- 
2.43.0


From 81c8b2f54863a147b6ae3a7e990202c37caffaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:44 +0000
Subject: [PATCH 70/85] fix: watch the documents which are configured

---
 turms/cli/main.py  |  5 +++--
 turms/cli/watch.py | 40 +++++++++++++++++++++++++++++++++++++---
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 59ffb59..147be17 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -331,10 +331,11 @@ def watch_projects(projects, title="Turms"):  # pragma: no cover
     )
 
     with Live(panel, screen=False) as live:
-        tree.renderable = f"Watching {project.documents}..."
+        documents = project.extensions.turms.documents or project.documents
+        tree.renderable = escape(f"Watching {documents}...")
         live.update(panel)
 
-        for event in stream_changes(project.documents):
+        for event in stream_changes(documents):
             live.update(panel)
 
             try:
diff --git a/turms/cli/watch.py b/turms/cli/watch.py
index 8817779..c2bf13e 100644
--- a/turms/cli/watch.py
+++ b/turms/cli/watch.py
@@ -1,17 +1,51 @@
+from fnmatch import fnmatch
+from typing import Optional
 from watchfiles.filters import BaseFilter
 from watchfiles import Change, watch
+import glob
 import os
 
 
+def documents_folder(documents: str) -> str:
+    """The folder below which everything a documents glob matches lies."""
+    folder = os.path.dirname(documents)
+    while glob.has_magic(folder):
+        folder = os.path.dirname(folder)
+    return os.path.abspath(folder)
+
+
 class GraphQLFilter(BaseFilter):  # pragma: no cover
+    def __init__(self, documents: Optional[str] = None):
+        super().__init__()
+        self.documents = documents
+
+    def is_document(self, path: str) -> bool:
+        if not self.documents:
+            return False
+        folder = documents_folder(self.documents)
+        return os.path.abspath(path).startswith(os.path.join(folder, "")) and fnmatch(
+            os.path.basename(path), os.path.basename(self.documents)
+        )
+
     def __call__(self, change: Change, path: str) -> bool:
         x = super().__call__(change, path)
         if not x:
             return False
 
-        return os.path.splitext(path)[1] == ".graphql"
+        return os.path.splitext(path)[1] == ".graphql" or self.is_document(path)
+
 
+def stream_changes(documents: Optional[str] = None):  # pragma: no cover
+    folders = ["."]
+    if documents:
+        folder = documents_folder(documents)
+        # documents may also lie outside of the working directory
+        if os.path.isdir(folder) and not os.path.join(folder, "").startswith(
+            os.path.join(os.getcwd(), "")
+        ):
+            folders.append(folder)
 
-def stream_changes(folder: str):  # pragma: no cover
-    for changes in watch(".", watch_filter=GraphQLFilter(), debounce=2000, step=500):
+    for changes in watch(
+        *folders, watch_filter=GraphQLFilter(documents), debounce=2000, step=500
+    ):
         yield changes
-- 
2.43.0


From 41d5433088d3ddc63c977955fcc7a24701561841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:11 +0000
Subject: [PATCH 71/85] fix: write starter configurations in the format of
 their file

---
 turms/cli/main.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 147be17..8527b57 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -1,5 +1,6 @@
 from enum import Enum
 import importlib.util
+import json
 import os
 from typing import Any, Callable, Dict
 
@@ -190,12 +191,22 @@ TEMPLATES: Dict[str, dict] = {
 }
 
 
-def build_default_settings(template: str = "documents") -> str:
-    """Render the named template (documents, rath, gql, strawberry) to YAML,
-    adapted to the tools installed in the current environment."""
-    return yaml.dump(
-        TEMPLATES[template]["build"](), sort_keys=False, default_flow_style=False
-    )
+def build_default_settings(template: str = "documents", suffix: str = ".yaml") -> str:
+    """Render the named template (documents, rath, gql, strawberry) in the format
+    of the config file (YAML, JSON or TOML), adapted to the tools installed in the
+    current environment."""
+    settings = TEMPLATES[template]["build"]()
+    if suffix.lower() == ".json":
+        return json.dumps(settings, indent=2) + "\n"
+    if suffix.lower() == ".toml":
+        try:
+            import toml
+        except ImportError as e:
+            raise click.ClickException(
+                "TOML not supported. Please install `toml`"
+            ) from e
+        return toml.dumps(settings)
+    return yaml.dump(settings, sort_keys=False, default_flow_style=False)
 
 
 def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms"):
@@ -406,8 +417,9 @@ def init(config, template):
     get_console().print(
         f"Creating {config} in {app_directory} (template: {template})"
     )
-    with open(os.path.join(app_directory, config), "w") as f:
-        f.write(build_default_settings(template))
+    settings = build_default_settings(template, os.path.splitext(config)[1])
+    with open(os.path.join(app_directory, config), "w", encoding="utf-8") as f:
+        f.write(settings)
 
     get_console().print(TEMPLATES[template]["hint"])
 
-- 
2.43.0


From 45e4648371732cb844bc25c01b12b0d67a74f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:47 +0000
Subject: [PATCH 72/85] fix: generate loadable interface selections for
 pydantic v1

---
 turms/recurse.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index 1ca2e47..6d176c5 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -495,7 +495,8 @@ def recurse_annotation(
             subtree.append(implementing_class)
             union_class_names.append(class_name)
 
-        registry.register_import("typing.Annotated")
+        if config.pydantic_version != "v1":
+            registry.register_import("typing.Annotated")
         registry.register_import("typing.Union")
         union_slice = ast.Tuple(
             elts=[
@@ -523,15 +524,22 @@ def recurse_annotation(
         )
 
         # Resort to base class if we have no sub-fragments
-        annotated_slice = (
-            ast.Subscript(
+        if not union_class_names:
+            annotated_slice = ast.Name(id=mother_class_name, ctx=ast.Load())
+        elif config.pydantic_version == "v1":
+            # Pydantic v1 neither discriminates a single class nor allows an
+            # alias next to a discriminator, the literal typenames do suffice
+            annotated_slice = ast.Subscript(
+                value=ast.Name("Union", ctx=ast.Load()),
+                slice=union_slice,
+                ctx=ast.Load(),
+            )
+        else:
+            annotated_slice = ast.Subscript(
                 value=ast.Name("Annotated", ctx=ast.Load()),
                 slice=slice,
                 ctx=ast.Load(),
             )
-            if union_class_names
-            else ast.Name(id=mother_class_name, ctx=ast.Load())
-        )
 
         if config.create_catchall:
             catch_all_class_name = f"{mother_class_name}CatchAll"
-- 
2.43.0


From ab51a15178ee40705d16e0f2df1d5aa59cc1e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:24 +0000
Subject: [PATCH 73/85] fix: let pydantic v1 arguments be populated by name

---
 turms/plugins/operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index aa31537..97b1eaf 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -102,7 +102,7 @@ def generate_arguments_config(
     plugin_config: OperationsPluginConfig,
     registry: ClassRegistry,
 ):
-    if config.pydantic_version == "1":
+    if config.pydantic_version == "v1":
         config_fields = []
 
         if plugin_config.arguments_allow_population_by_field_name:
@@ -128,6 +128,7 @@ def generate_arguments_config(
                     ]
                     + config_fields,
                     decorator_list=[],
+                    type_params=[],
                 )
             ]
         else:
-- 
2.43.0


From 65735a6c2cf91013cd29f8479a0df07eee3da5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 74/85] fix: polyfill Annotated for python 3.7 and 3.8

---
 turms/parsers/polyfill.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index a72d6cf..6601848 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -22,7 +22,14 @@ class PolyfillPluginConfig(ParserConfig):
         return value
 
 
-def polyfill_python_seven(
+# Names which the typing module of an older python version lacks
+NEEDS_EXTENSIONS = {
+    "3.7": {"Annotated", "Literal"},
+    "3.8": {"Annotated"},
+}
+
+
+def polyfill_typing(
     asts: List[ast.AST], config: PolyfillPluginConfig
 ) -> List[ast.AST]:
     new_nodes: list[ast.AST] = []
@@ -31,7 +38,9 @@ def polyfill_python_seven(
             if node.module == "typing":
                 # okay imports
                 aliases = {alias.name for alias in node.names}
-                need_extensions = aliases.intersection({"Literal"})
+                need_extensions = aliases.intersection(
+                    NEEDS_EXTENSIONS[config.python_version]
+                )
                 if need_extensions:
                     new_nodes.append(
                         ast.ImportFrom(
@@ -73,7 +82,7 @@ class PolyfillParser(Parser):
         self,
         asts: List[ast.AST],
     ) -> List[ast.AST]:
-        if self.config.python_version == "3.7":
-            return polyfill_python_seven(asts, self.config)
+        if self.config.python_version in NEEDS_EXTENSIONS:
+            return polyfill_typing(asts, self.config)
 
         return asts  # pragma: no cover
-- 
2.43.0


From 00d45e1f2ad3709855c1111b578aa042df5b1995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:25 +0000
Subject: [PATCH 75/85] fix: keep the members of input unions apart in pydantic
 v1

---
 turms/plugins/inputs.py | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index bb38139..c95ef92 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -325,7 +325,7 @@ def generate_input_type(
         else:
             fields += [assign]
 
-    if discriminators and config.pydantic_version == "v2":
+    if discriminators:
         # The discriminator carries a default and is never explicitly set, so an
         # exclude_unset dump (the proxy contract) would drop it from the wire —
         # but the server needs it to discriminate. Mark it as set on every
@@ -333,10 +333,24 @@ def generate_input_type(
         names = ", ".join(
             repr(registry.generate_node_name(d.discriminator)) for d in discriminators
         )
-        fields += ast.parse(
-            "def model_post_init(self, context):\n"
-            f"    self.__pydantic_fields_set__.update({{{names}}})\n"
-        ).body
+        if config.pydantic_version == "v2":
+            fields += ast.parse(
+                "def model_post_init(self, context):\n"
+                f"    self.__pydantic_fields_set__.update({{{names}}})\n"
+            ).body
+        else:
+            # Pydantic v1 turns the instances of other members into dictionaries
+            # of their attributes, which may be mistaken for this member
+            fields += ast.parse(
+                "def __init__(self, **data):\n"
+                "    super().__init__(**data)\n"
+                f"    self.__fields_set__.update({{{names}}})\n"
+                "@classmethod\n"
+                "def validate(cls, value):\n"
+                "    if hasattr(value, '__fields_set__') and not isinstance(value, cls):\n"
+                "        raise TypeError(f'{value!r} is no {cls.__name__}')\n"
+                "    return super().validate(value)\n"
+            ).body
 
     return ast.ClassDef(
         name,
@@ -677,6 +691,21 @@ def generate_inputs(
                 )
             continue
 
+        if (
+            type.name in union_input_types
+            and len(union_input_types[type.name]) == 1
+            and config.pydantic_version == "v1"
+        ):
+            # Pydantic v1 does not discriminate a single class
+            tree.append(
+                generate_union_alias(
+                    registry.generate_inputtype(type.name),
+                    union_input_types[type.name],
+                    registry,
+                )
+            )
+            continue
+
         if type.name in union_input_types:
             registry.register_import("typing.Union")
             registry.register_import("typing.Annotated")
-- 
2.43.0


From 56ba710b110694100aee1a1cded05e320c521048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:30 +0000
Subject: [PATCH 76/85] fix: import polyfilled typing names one by one

---
 turms/parsers/polyfill.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index 6601848..191277c 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -41,13 +41,11 @@ def polyfill_typing(
                 need_extensions = aliases.intersection(
                     NEEDS_EXTENSIONS[config.python_version]
                 )
-                if need_extensions:
+                for name in sorted(need_extensions):
                     new_nodes.append(
                         ast.ImportFrom(
                             module="typing_extensions",
-                            names=[
-                                ast.alias(name=name) for name in sorted(need_extensions)
-                            ],
+                            names=[ast.alias(name=name)],
                             level=0,
                         )
                     )
-- 
2.43.0


From e7f17ab739d81f145875f33518fdcf5423805641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:40 +0000
Subject: [PATCH 77/85] fix: keep functions of operations named by keywords
 apart from their class

---
 turms/plugins/funcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 246d389..c7c97be 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -110,8 +110,10 @@ def escape_func_name(
 ) -> str:
     """Keeps the function name valid and from shadowing its own operation class
     (which the function body refers to)."""
-    if iskeyword(name) or name == get_operation_class_name(o, registry):
-        return name + "_"
+    if iskeyword(name):
+        name += "_"
+    if name == get_operation_class_name(o, registry):
+        name += "_"
     return name
 
 
-- 
2.43.0


From b617f6cdb131bff91d5cdcd7b3b93b034c189a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:05 +0000
Subject: [PATCH 78/85] fix: keep nested classes from shadowing fragments and
 operations

---
 turms/plugins/fragments.py  |  1 +
 turms/plugins/operations.py |  1 +
 turms/recurse.py            | 53 ++++++++-----------------
 turms/registry.py           | 77 +++++++++++++++++++++++++++++++++++--
 4 files changed, 92 insertions(+), 40 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index c410372..8d39a83 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -714,6 +714,7 @@ class FragmentsPlugin(Plugin):
             return []
 
         documents = parse_documents(client_schema, glob, config)
+        registry.claim_document_classes(documents, client_schema)
 
         # Find dependencies and sort fragments topologically
         fragment_dependencies = build_recursive_dependency_graph(documents)
diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 97b1eaf..a58ba5b 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -497,6 +497,7 @@ class OperationsPlugin(Plugin):
             )
 
         documents = parse_documents(client_schema, glob, config)
+        registry.claim_document_classes(documents, client_schema)
 
         definitions = documents.definitions
         operations = [
diff --git a/turms/recurse.py b/turms/recurse.py
index 6d176c5..f83ad99 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -42,31 +42,6 @@ from graphql.type.definition import (
 from turms.config import GraphQLTypes
 
 
-def unique_class_name(
-    name: str, subtree: list[ast.ClassDef], suffix: str = ""
-) -> str:
-    """Returns a name that no class of the subtree is using yet
-
-    Sibling selections can ask for the same class name (e.g. two union fields with
-    inline fragments on the same type), later classes would then shadow earlier ones.
-
-    Args:
-        name (str): The desired name of the class
-        subtree (list[ast.ClassDef]): The classes that have already been generated
-        suffix (str, optional): A suffix that is appended to the class. Defaults to "".
-
-    Returns:
-        str: The (potentially numbered) name, without the suffix
-    """
-    taken = {cls.name for cls in subtree if isinstance(cls, ast.ClassDef)}
-    unique_name = name
-    number = 2
-    while f"{unique_name}{suffix}" in taken:
-        unique_name = f"{name}{number}"
-        number += 1
-    return unique_name
-
-
 def merge_member_selections(
     nodes: list[SelectionNode], registry: ClassRegistry
 ) -> list[SelectionNode]:
@@ -165,9 +140,8 @@ def recurse_annotation(
                 union_class_names.append(fragment_name)
 
             if isinstance(sub_node, InlineFragmentNode):
-                inline_fragment_name = unique_class_name(
-                    f"{parent}{sub_node.type_condition.name.value}InlineFragment",
-                    subtree,
+                inline_fragment_name = registry.claim_nested_class(
+                    f"{parent}{sub_node.type_condition.name.value}InlineFragment"
                 )
                 spread_fragment_bases: list[ast.Name] = []
                 inline_field_nodes: list[ast.AnnAssign | ast.Expr] = []
@@ -320,8 +294,15 @@ def recurse_annotation(
 
         sub_nodes = non_typename_fields(node)
 
-        base_name = unique_class_name(
-            f"{parent}{target.capitalize()}", subtree, suffix="Base"
+        implementing_types = client_schema.get_implementations(type)
+
+        base_name = registry.claim_nested_class(
+            f"{parent}{target.capitalize()}",
+            [
+                "Base",
+                "BaseCatchAll",
+                *(f"Base{i.name}" for i in implementing_types.objects),
+            ],
         )
 
         if type.description:
@@ -333,8 +314,6 @@ def recurse_annotation(
                 ast.Expr(value=ast.Constant(value="No documentation"))
             )
 
-        implementing_types = client_schema.get_implementations(type)
-
         implementing_class_base_classes: Dict[str, List[str]] = {}
 
         inline_fragment_fields: Dict[str, List[ast.AnnAssign | ast.Expr]] = {}
@@ -594,11 +573,6 @@ def recurse_annotation(
     if isinstance(type, GraphQLObjectType):
         pick_fields: list[ast.Expr | ast.AnnAssign] = []
 
-        target = target_from_node(node)
-        object_class_name = unique_class_name(
-            f"{parent}{target.capitalize()}", subtree
-        )
-
         if type.description:
             pick_fields.append(ast.Expr(value=ast.Constant(value=type.description)))
         else:
@@ -639,6 +613,11 @@ def recurse_annotation(
                 else:
                     return reference
 
+        target = target_from_node(node)
+        object_class_name = registry.claim_nested_class(
+            f"{parent}{target.capitalize()}"
+        )
+
         additional_bases: list[ast.Name] = []
 
         for sub_node in sub_nodes:
diff --git a/turms/registry.py b/turms/registry.py
index 7ff5691..eaab7a9 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -1,8 +1,17 @@
 import ast
 from keyword import iskeyword
-from typing import Callable, Dict, List, Optional, Set, Type
-
-from graphql import DocumentNode, GraphQLNamedType
+from typing import Callable, Dict, List, Optional, Sequence, Set, Type
+
+from graphql import (
+    DocumentNode,
+    FragmentDefinitionNode,
+    GraphQLInterfaceType,
+    GraphQLNamedType,
+    GraphQLSchema,
+    GraphQLUnionType,
+    OperationDefinitionNode,
+    OperationType,
+)
 
 from turms.config import GeneratorConfig, LogFunction, PythonType
 from turms.errors import (
@@ -255,11 +264,73 @@ class ClassRegistry(object):
         self.interfacefragments_impl_map: Dict[str, Dict[str, str]] = {}
         self.unionfragment_members_map: Dict[str, Dict[str, str]] = {}
 
+        # names of the module that classes of nested selections have to avoid
+        self.claimed_class_names: Set[str] = set()
+
         self.operation_single_operation_map: Dict[
             str, ast.AST
         ] = {}  # This is used to store the operation name and the root operation class name if single
         self.log = log
 
+    def claim_document_classes(
+        self, document: DocumentNode, schema: GraphQLSchema
+    ) -> None:
+        """Claims the class names of the fragments and operations of a document"""
+        for definition in document.definitions:
+            if isinstance(definition, FragmentDefinitionNode):
+                classname = self.style_fragment_class(definition.name.value)
+                suffixes = [""]
+                type = schema.get_type(definition.type_condition.name.value)
+                if isinstance(type, GraphQLInterfaceType):
+                    suffixes += ["Base", "Catch"]
+                    suffixes += [
+                        i.name for i in schema.get_implementations(type).objects
+                    ]
+                elif isinstance(type, GraphQLUnionType):
+                    suffixes += [i.name for i in type.types]
+                self.claimed_class_names.update(
+                    f"{classname}{suffix}" for suffix in suffixes
+                )
+            elif isinstance(definition, OperationDefinitionNode) and definition.name:
+                style = {
+                    OperationType.QUERY: self.style_query_class,
+                    OperationType.MUTATION: self.style_mutation_class,
+                    OperationType.SUBSCRIPTION: self.style_subscription_class,
+                }[definition.operation]
+                self.claimed_class_names.add(style(definition.name.value))
+
+    def claim_nested_class(self, name: str, suffixes: Sequence[str] = ("",)) -> str:
+        """Claims the name of a class that is generated for a nested selection
+
+        Other classes can ask for the same name (e.g. two union fields with inline
+        fragments on the same type), later classes would then shadow earlier ones.
+
+        Args:
+            name (str): The desired name of the class
+            suffixes (Sequence[str], optional): The suffixes of the classes that are
+                generated under this name. Defaults to ("",).
+
+        Returns:
+            str: The (potentially numbered) name, without the suffix
+        """
+        taken = {
+            *self.claimed_class_names,
+            *self.enum_class_map.values(),
+            *self.inputtype_class_map.values(),
+            *self.object_class_map.values(),
+            *self.interface_baseclass_map.values(),
+            *self.interface_reference_map.values(),
+        }
+        unique_name = name
+        number = 2
+        while any(f"{unique_name}{suffix}" in taken for suffix in suffixes):
+            unique_name = f"{name}{number}"
+            number += 1
+        self.claimed_class_names.update(
+            f"{unique_name}{suffix}" for suffix in suffixes
+        )
+        return unique_name
+
     def register_operation_single(self, operation_name: str, annotation_ast: ast.AST):
         self.operation_single_operation_map[operation_name] = annotation_ast
 
-- 
2.43.0


From f31c2e1b928f602b92d0fa5afd9531739c5e8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:28 +0000
Subject: [PATCH 79/85] fix: keep the fields of fragments on unions and
 interfaces wherever they are spread

---
 turms/plugins/fragments.py |  8 +++++---
 turms/plugins/funcs.py     | 10 ++++++++--
 turms/recurse.py           | 37 ++++++++++++++++++++++++++++++++++---
 turms/registry.py          | 10 ++++++++--
 4 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 8d39a83..8df64c7 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -536,9 +536,11 @@ def generate_fragment(
             if isinstance(sub_node, FragmentSpreadNode):
                 # Spread nodes are like inheritance
                 try:
-                    # We are dealing with a fragment that is a union
-                    implementation_map = registry.get_union_fragment_members(
-                        sub_node.name.value
+                    # We are dealing with a fragment on a union or an interface
+                    implementation_map = (
+                        registry.get_interface_fragment_implementations(
+                            sub_node.name.value
+                        )
                     )
                     for k, v in implementation_map.items():
                         member_class_base_classes.setdefault(k, []).append(v)
diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index c7c97be..eba109b 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -768,11 +768,14 @@ def get_return_type_annotation(
             if isinstance(
                 collapsable_fragment_field, FragmentSpreadNode
             ):  # Dealing with a on element fragment
+                named_type = get_named_type(field_definition.type)
                 implementation = (
                     registry.get_interface_fragment_implementation_or_none(
                         collapsable_fragment_field.name.value,
-                        get_named_type(field_definition.type).name,
+                        named_type.name,
                     )
+                    if isinstance(named_type, GraphQLObjectType)
+                    else None
                 )
                 overwrite_final = (
                     implementation
@@ -832,11 +835,14 @@ def get_return_type_string(
             if isinstance(
                 collapsable_fragment_field, FragmentSpreadNode
             ):  # Dealing with a on element fragment
+                named_type = get_named_type(potential_return_type.type)
                 implementation = (
                     registry.get_interface_fragment_implementation_or_none(
                         collapsable_fragment_field.name.value,
-                        get_named_type(potential_return_type.type).name,
+                        named_type.name,
                     )
+                    if isinstance(named_type, GraphQLObjectType)
+                    else None
                 )
                 overwrite_final = (
                     implementation
diff --git a/turms/recurse.py b/turms/recurse.py
index f83ad99..9e79b0d 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -43,21 +43,50 @@ from turms.config import GraphQLTypes
 
 
 def merge_member_selections(
-    nodes: list[SelectionNode], registry: ClassRegistry
+    nodes: list[SelectionNode], union: GraphQLUnionType, registry: ClassRegistry
 ) -> list[SelectionNode]:
     """Combines the selections on the same member of a union
 
     Every selection on a member of a union becomes a class of its own and a value is
     parsed into one of them. If a member is selected repeatedly its selections are
-    therefore combined into one inline fragment.
+    therefore combined into one inline fragment. A fragment on an interface or on
+    another union selects on every member that it has a class for.
 
     Args:
         nodes (list[SelectionNode]): The selections on the union
+        union (GraphQLUnionType): The union
         registry (ClassRegistry): The registry (used to get the type of fragments)
 
     Returns:
         list[SelectionNode]: The selections with at most one selection per member
     """
+    spread_nodes: list[SelectionNode] = []
+    for node in nodes:
+        fragment_type = (
+            registry.fragment_type_map.get(node.name.value)
+            if isinstance(node, FragmentSpreadNode)
+            else None
+        )
+        if isinstance(fragment_type, GraphQLInterfaceType) or (
+            isinstance(fragment_type, GraphQLUnionType)
+            and (len(nodes) > 1 or fragment_type.name != union.name)
+        ):
+            implementations = registry.get_interface_fragment_implementations(
+                node.name.value
+            )
+            spread_nodes += [
+                InlineFragmentNode(
+                    type_condition=NamedTypeNode(name=NameNode(value=member.name)),
+                    directives=(),
+                    selection_set=SelectionSetNode(selections=(node,)),
+                )
+                for member in union.types
+                if member.name in implementations
+            ]
+        else:
+            spread_nodes.append(node)
+    nodes = spread_nodes
+
     members: Dict[str, list[SelectionNode]] = {}
     for node in nodes:
         if isinstance(node, InlineFragmentNode):
@@ -132,7 +161,9 @@ def recurse_annotation(
     if isinstance(type, GraphQLUnionType):
         union_class_names: List[str] = []
 
-        sub_nodes = merge_member_selections(non_typename_fields(node), registry)
+        sub_nodes = merge_member_selections(
+            non_typename_fields(node), type, registry
+        )
 
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
diff --git a/turms/registry.py b/turms/registry.py
index eaab7a9..3547c72 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -519,6 +519,9 @@ class ClassRegistry(object):
         self.interfacefragments_impl_map[fragmentname] = implementationMap
 
     def get_interface_fragment_implementations(self, fragmentname: str):
+        if fragmentname in self.unionfragment_members_map:
+            # A fragment on a union has one class per member just the same
+            return self.unionfragment_members_map[fragmentname]
         return self.interfacefragments_impl_map[fragmentname]
 
     def register_union_fragment_members(
@@ -564,8 +567,11 @@ class ClassRegistry(object):
         in both cases the caller should fall back to a plain fragment
         reference.
         """
-        implementation_map = self.interfacefragments_impl_map.get(fragmentname)
-        if implementation_map is None:
+        try:
+            implementation_map = self.get_interface_fragment_implementations(
+                fragmentname
+            )
+        except KeyError:
             return None
         if typename in implementation_map:
             return implementation_map[typename]
-- 
2.43.0


From 185303d4f96602a7c3920bb2334ea50589a54ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:43 +0000
Subject: [PATCH 80/85] fix: accept union members that nothing is selected on

---
 turms/recurse.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index 9e79b0d..4b3f61a 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -115,7 +115,25 @@ def merge_member_selections(
         )
         merged = [node for node in merged if not any(node is s for s in selections)]
 
-    return merged
+    if any(
+        isinstance(node, FragmentSpreadNode)
+        and isinstance(
+            registry.fragment_type_map.get(node.name.value), GraphQLUnionType
+        )
+        for node in merged
+    ):
+        return merged
+
+    # The server may return any member, whether anything is selected on it or not
+    return merged + [
+        InlineFragmentNode(
+            type_condition=NamedTypeNode(name=NameNode(value=member.name)),
+            directives=(),
+            selection_set=SelectionSetNode(selections=()),
+        )
+        for member in union.types
+        if member.name not in members
+    ]
 
 
 def recurse_annotation(
-- 
2.43.0


From 3bd4f0776cfcb0a25e18f19518e1a72b306acc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:25 +0000
Subject: [PATCH 81/85] fix: keep the fields of inline fragments nested in
 inline fragments and selections on objects

Inline fragments within inline fragments, within fragments on objects, and on
interfaces were dropped without notice, so responses lost their fields.
---
 turms/plugins/fragments.py |   6 +-
 turms/plugins/funcs.py     |  10 ++-
 turms/recurse.py           |   9 +--
 turms/referencer.py        | 133 +++++++++++--------------------------
 turms/utils.py             |  82 ++++++++++++++++++++++-
 5 files changed, 134 insertions(+), 106 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 8df64c7..8fedfaa 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -216,7 +216,7 @@ def generate_fragment(
                 ast.Expr(value=ast.Constant(value="No documentation"))
             )
 
-        sub_nodes = non_typename_fields(f)
+        sub_nodes = non_typename_fields(f, type, client_schema)
 
         mother_class_name = base_fragment_name + "Base"
 
@@ -414,7 +414,7 @@ def generate_fragment(
 
         fields += [generate_typename_field(type.name, registry, config)]
 
-        for field in f.selection_set.selections:
+        for field in non_typename_fields(f, type, client_schema):
             if isinstance(field, FragmentDefinitionNode):  # pragma: no cover
                 continue
 
@@ -524,7 +524,7 @@ def generate_fragment(
         base_fragment_name = registry.style_fragment_class(f.name.value)
         additional_bases = get_additional_bases_for_type(type.name, config, registry)
 
-        sub_nodes = non_typename_fields(f)
+        sub_nodes = non_typename_fields(f, type, client_schema)
 
         mother_class_name = base_fragment_name  # + "Base"
 
diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index eba109b..a39cc8f 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -757,8 +757,10 @@ def get_return_type_annotation(
 
         collapsable_field = o.selection_set.selections[0]
 
-        sub_nodes = non_typename_fields(collapsable_field)
         field_definition = get_field_def(client_schema, root, collapsable_field)
+        sub_nodes = non_typename_fields(
+            collapsable_field, get_named_type(field_definition.type), client_schema
+        )
 
         if len(sub_nodes) == 0:  # pragma: no cover
             return recurse_outputtype_annotation(field_definition.type, registry)
@@ -821,10 +823,14 @@ def get_return_type_string(
     if collapse is True:
         potential_return_field = o.selection_set.selections[0]
 
-        sub_nodes = non_typename_fields(potential_return_field)
         potential_return_type = get_field_def(
             client_schema, root, potential_return_field
         )
+        sub_nodes = non_typename_fields(
+            potential_return_field,
+            get_named_type(potential_return_type.type),
+            client_schema,
+        )
 
         if len(sub_nodes) == 0:  # Dealing with a scalar type  # pragma: no cover
             return recurse_outputtype_label(potential_return_type.type, registry)
diff --git a/turms/recurse.py b/turms/recurse.py
index 4b3f61a..679ef27 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -180,7 +180,7 @@ def recurse_annotation(
         union_class_names: List[str] = []
 
         sub_nodes = merge_member_selections(
-            non_typename_fields(node), type, registry
+            non_typename_fields(node, type, client_schema), type, registry
         )
 
         for sub_node in sub_nodes:
@@ -341,7 +341,7 @@ def recurse_annotation(
         mother_class_fields: list[ast.Expr | ast.AnnAssign] = []
         target = target_from_node(node)
 
-        sub_nodes = non_typename_fields(node)
+        sub_nodes = non_typename_fields(node, type, client_schema)
 
         implementing_types = client_schema.get_implementations(type)
 
@@ -629,7 +629,7 @@ def recurse_annotation(
 
         pick_fields += [generate_typename_field(type.name, registry, config)]
 
-        sub_nodes = non_typename_fields(node)
+        sub_nodes = non_typename_fields(node, type, client_schema)
 
         # Single Item collapse
         if len(sub_nodes) == 1:
@@ -704,9 +704,6 @@ def recurse_annotation(
                     registry,
                 )
 
-            if isinstance(sub_node, InlineFragmentNode):
-                raise NotImplementedError("Inline Fragments are not yet implemented")
-
         additional_bases = [
             ast.Name(id=base, ctx=ast.Load())
             for base in registry.sort_fragment_bases(
diff --git a/turms/referencer.py b/turms/referencer.py
index 1899f39..872236c 100644
--- a/turms/referencer.py
+++ b/turms/referencer.py
@@ -19,6 +19,7 @@ from graphql.language.ast import (
     FieldNode,
     FragmentSpreadNode,
     InlineFragmentNode,
+    SelectionSetNode,
 )
 from graphql.type.definition import (
     GraphQLType,
@@ -55,6 +56,37 @@ class ReferenceRegistry:
         return type_name in self.inputs
 
 
+def find_references_in_selections(
+    selection_set: SelectionSetNode,
+    graphql_type: GraphQLType,
+    client_schema: GraphQLSchema,
+    registry: ReferenceRegistry,
+):
+    """Finds the references of all fields selected on a type, however deep the
+    inline fragments are nested which select them"""
+    for selection in selection_set.selections:
+        if isinstance(selection, FragmentSpreadNode):
+            registry.register_fragment(selection.name.value)
+
+        elif isinstance(selection, InlineFragmentNode):
+            find_references_in_selections(
+                selection.selection_set,
+                client_schema.get_type(selection.type_condition.name.value)
+                if selection.type_condition
+                else graphql_type,
+                client_schema,
+                registry,
+            )
+
+        elif selection.name.value != "__typename":
+            recurse_find_references(
+                selection,
+                graphql_type.fields[selection.name.value].type,
+                client_schema,
+                registry,
+            )
+
+
 def recurse_find_references(
     node: FieldNode,
     graphql_type: GraphQLType,
@@ -70,61 +102,9 @@ def recurse_find_references(
                 "No selection set found for node", node, graphql_type, client_schema
             )
 
-        for sub_node in node.selection_set.selections:
-            if isinstance(sub_node, FragmentSpreadNode):
-                registry.register_fragment(sub_node.name.value)
-
-            elif isinstance(sub_node, InlineFragmentNode):
-                for sub_sub_node in sub_node.selection_set.selections:
-                    if isinstance(sub_sub_node, FieldNode):
-                        sub_sub_node_type = client_schema.get_type(
-                            sub_node.type_condition.name.value
-                        )
-
-                        if sub_sub_node.name.value == "__typename":
-                            continue
-
-                        if not isinstance(
-                            sub_sub_node_type,
-                            (GraphQLObjectType, GraphQLInterfaceType),
-                        ):
-                            raise Exception(
-                                "Expected GraphQLObjectType",
-                                sub_sub_node_type,
-                                sub_node.type_condition.name.value,
-                            )
-
-                        field_type = sub_sub_node_type.fields[sub_sub_node.name.value]
-                        recurse_find_references(
-                            sub_sub_node,
-                            field_type.type,
-                            client_schema,
-                            registry,
-                        )
-            elif isinstance(sub_node, FieldNode):
-                if sub_node.name.value == "__typename":
-                    continue
-
-                if not isinstance(
-                    graphql_type,
-                    (GraphQLObjectType, GraphQLInterfaceType),
-                ):
-                    raise Exception(
-                        "Expected GraphQLObjectType",
-                        graphql_type,
-                        sub_node.name.value,
-                    )
-
-                this_type = graphql_type.fields[sub_node.name.value]
-
-                recurse_find_references(
-                    sub_node,
-                    this_type.type,
-                    client_schema,
-                    registry,
-                )
-            else:
-                raise Exception("Unexpected Type")
+        find_references_in_selections(
+            node.selection_set, graphql_type, client_schema, registry
+        )
 
     elif isinstance(graphql_type, GraphQLScalarType):
         registry.register_scalar(graphql_type.name)
@@ -242,32 +222,7 @@ def create_reference_registry_from_documents(
 
     for fragment in fragments.values():
         type = schema.get_type(fragment.type_condition.name.value)
-        for selection in fragment.selection_set.selections:
-            if isinstance(selection, FieldNode):
-                # definition
-                if selection.name.value == "__typename":
-                    continue
-                this_type = type.fields[selection.name.value]
-
-                recurse_find_references(
-                    selection,
-                    this_type.type,
-                    schema,
-                    registry,
-                )
-            elif isinstance(selection, InlineFragmentNode):
-                sub_type = schema.get_type(selection.type_condition.name.value)
-                for sub_selection in selection.selection_set.selections:
-                    if isinstance(sub_selection, FieldNode):
-                        if sub_selection.name.value == "__typename":
-                            continue
-                        sub_this_type = sub_type.fields[sub_selection.name.value]
-                        recurse_find_references(
-                            sub_selection,
-                            sub_this_type.type,
-                            schema,
-                            registry,
-                        )
+        find_references_in_selections(fragment.selection_set, type, schema, registry)
 
     for operation in operations.values():
         type = schema.get_root_type(operation.operation)
@@ -275,18 +230,8 @@ def create_reference_registry_from_documents(
         for argument in operation.variable_definitions:
             recurse_type_annotation(argument, argument.type, schema, registry)
 
-        for selection in operation.selection_set.selections:
-            if isinstance(selection, FieldNode):
-                # definition
-                if selection.name.value == "__typename":
-                    continue
-                this_type = type.fields[selection.name.value]
-
-                recurse_find_references(
-                    selection,
-                    this_type.type,
-                    schema,
-                    registry,
-                )
+        find_references_in_selections(
+            operation.selection_set, type, schema, registry
+        )
 
     return registry
diff --git a/turms/utils.py b/turms/utils.py
index 16b9acb..e82085b 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -1,18 +1,22 @@
 import ast
+import copy
 import glob
 import re
 from typing import Any, List, Optional, Sequence, Set, Union
 
 from graphql import (
     BooleanValueNode,
+    DirectiveNode,
     EnumValueNode,
     FloatValueNode,
     FragmentDefinitionNode,
     FragmentSpreadNode,
+    GraphQLCompositeType,
     GraphQLEnumType,
     GraphQLInterfaceType,
     GraphQLList,
     GraphQLNamedOutputType,
+    GraphQLNamedType,
     GraphQLNonNull,
     GraphQLNullableType,
     GraphQLObjectType,
@@ -35,6 +39,7 @@ from graphql import (
     Undefined,
     ValueNode,
     Visitor,
+    is_abstract_type,
     parse,
     print_ast,
     validate,
@@ -111,17 +116,92 @@ def target_from_node(node: FieldNode) -> str:
 
 def non_typename_fields(
     node: FieldNode | FragmentDefinitionNode,
+    type: GraphQLNamedType,
+    client_schema: GraphQLSchema,
 ) -> List[FieldNode | SelectionNode]:
     """Returns all fields in a FieldNode that are not __typename"""
     if not node.selection_set:
         return []
     return [
         field
-        for field in node.selection_set.selections
+        for field in resolve_inline_fragments(
+            node.selection_set.selections, type, client_schema
+        )
         if not (isinstance(field, FieldNode) and field.name.value == "__typename")
     ]
 
 
+def with_conditions(node: FieldNode, directives: Sequence[DirectiveNode]) -> FieldNode:
+    """Moves the directives of an inline fragment onto a field it selects"""
+    if not directives:
+        return node
+    node = copy.copy(node)
+    node.directives = (*node.directives, *directives)
+    return node
+
+
+def resolve_inline_fragments(
+    selections: Sequence[SelectionNode],
+    type: GraphQLCompositeType,
+    client_schema: GraphQLSchema,
+    directives: Sequence[DirectiveNode] = (),
+) -> List[SelectionNode]:
+    """Resolves inline fragments to the concrete types they apply to
+
+    Inline fragments applying to every value of the type are replaced by their
+    selections, all others end up as inline fragments on object types, which contain
+    no further inline fragments.
+    """
+    resolved: List[SelectionNode] = []
+    for node in selections:
+        if isinstance(node, FieldNode):
+            resolved.append(with_conditions(node, directives))
+            continue
+
+        if not isinstance(node, InlineFragmentNode):
+            resolved.append(node)
+            continue
+
+        condition = (
+            client_schema.get_type(node.type_condition.name.value)
+            if node.type_condition
+            else type
+        )
+        conditions = (*directives, *node.directives)
+
+        def applies_to(member: GraphQLNamedType) -> bool:
+            return member is condition or (
+                is_abstract_type(condition)
+                and client_schema.is_sub_type(condition, member)
+            )
+
+        if applies_to(type):
+            resolved += resolve_inline_fragments(
+                node.selection_set.selections, type, client_schema, conditions
+            )
+        elif is_abstract_type(type):
+            resolved += [
+                InlineFragmentNode(
+                    type_condition=NamedTypeNode(name=NameNode(value=member.name)),
+                    directives=(),
+                    selection_set=SelectionSetNode(
+                        selections=tuple(
+                            resolve_inline_fragments(
+                                node.selection_set.selections,
+                                member,
+                                client_schema,
+                                conditions,
+                            )
+                        )
+                    ),
+                )
+                for member in client_schema.get_possible_types(type)
+                if applies_to(member)
+            ]
+
+    return resolved
+
+
 def inspect_operation_for_documentation(operation: OperationDefinitionNode):
     """Checks for operation level documentatoin"""
 
-- 
2.43.0


From d6699a6ad85ae8fed5c5473b35ba8055c5bcd977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:04 +0000
Subject: [PATCH 82/85] fix: let the fields of fragments spread under a
 condition be left out

---
 turms/plugins/fragments.py |  6 +++---
 turms/plugins/funcs.py     |  6 +++++-
 turms/recurse.py           | 11 +++++------
 turms/registry.py          |  5 +++++
 turms/utils.py             | 30 +++++++++++++++++++++++-------
 5 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 8fedfaa..b23af6f 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -216,7 +216,7 @@ def generate_fragment(
                 ast.Expr(value=ast.Constant(value="No documentation"))
             )
 
-        sub_nodes = non_typename_fields(f, type, client_schema)
+        sub_nodes = non_typename_fields(f, type, client_schema, registry)
 
         mother_class_name = base_fragment_name + "Base"
 
@@ -414,7 +414,7 @@ def generate_fragment(
 
         fields += [generate_typename_field(type.name, registry, config)]
 
-        for field in non_typename_fields(f, type, client_schema):
+        for field in non_typename_fields(f, type, client_schema, registry):
             if isinstance(field, FragmentDefinitionNode):  # pragma: no cover
                 continue
 
@@ -524,7 +524,7 @@ def generate_fragment(
         base_fragment_name = registry.style_fragment_class(f.name.value)
         additional_bases = get_additional_bases_for_type(type.name, config, registry)
 
-        sub_nodes = non_typename_fields(f, type, client_schema)
+        sub_nodes = non_typename_fields(f, type, client_schema, registry)
 
         mother_class_name = base_fragment_name  # + "Base"
 
diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index a39cc8f..a561ff3 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -759,7 +759,10 @@ def get_return_type_annotation(
 
         field_definition = get_field_def(client_schema, root, collapsable_field)
         sub_nodes = non_typename_fields(
-            collapsable_field, get_named_type(field_definition.type), client_schema
+            collapsable_field,
+            get_named_type(field_definition.type),
+            client_schema,
+            registry,
         )
 
         if len(sub_nodes) == 0:  # pragma: no cover
@@ -830,6 +833,7 @@ def get_return_type_string(
             potential_return_field,
             get_named_type(potential_return_type.type),
             client_schema,
+            registry,
         )
 
         if len(sub_nodes) == 0:  # Dealing with a scalar type  # pragma: no cover
diff --git a/turms/recurse.py b/turms/recurse.py
index 679ef27..01de985 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -19,6 +19,7 @@ from turms.utils import (
     generate_typename_field,
     get_additional_bases_for_type,
     get_interface_bases,
+    is_conditional,
     merge_bases_sequences,
     merge_body_sequences,
     non_typename_fields,
@@ -180,7 +181,7 @@ def recurse_annotation(
         union_class_names: List[str] = []
 
         sub_nodes = merge_member_selections(
-            non_typename_fields(node, type, client_schema), type, registry
+            non_typename_fields(node, type, client_schema, registry), type, registry
         )
 
         for sub_node in sub_nodes:
@@ -341,7 +342,7 @@ def recurse_annotation(
         mother_class_fields: list[ast.Expr | ast.AnnAssign] = []
         target = target_from_node(node)
 
-        sub_nodes = non_typename_fields(node, type, client_schema)
+        sub_nodes = non_typename_fields(node, type, client_schema, registry)
 
         implementing_types = client_schema.get_implementations(type)
 
@@ -629,7 +630,7 @@ def recurse_annotation(
 
         pick_fields += [generate_typename_field(type.name, registry, config)]
 
-        sub_nodes = non_typename_fields(node, type, client_schema)
+        sub_nodes = non_typename_fields(node, type, client_schema, registry)
 
         # Single Item collapse
         if len(sub_nodes) == 1:
@@ -893,9 +894,7 @@ def type_field_node(
     type = cast(BoundType, field.type)
 
     # The server leaves out the field if the condition says so
-    if isinstance(type, GraphQLNonNull) and any(
-        directive.name.value in ("skip", "include") for directive in node.directives
-    ):
+    if isinstance(type, GraphQLNonNull) and is_conditional(node.directives):
         type = cast(BoundType, type.of_type)
 
     if not isinstance(type, GraphQLNonNull):
diff --git a/turms/registry.py b/turms/registry.py
index 3547c72..1646737 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -11,6 +11,7 @@ from graphql import (
     GraphQLUnionType,
     OperationDefinitionNode,
     OperationType,
+    parse,
 )
 
 from turms.config import GeneratorConfig, LogFunction, PythonType
@@ -816,6 +817,10 @@ class ClassRegistry(object):
     def get_fragment_document(self, typename: str) -> str:
         return self.fragment_document_map[typename]
 
+    def get_fragment_definition(self, typename: str) -> FragmentDefinitionNode:
+        """Returns the definition of an already generated fragment"""
+        return parse(self.fragment_document_map[typename]).definitions[0]
+
     def reference_unset(self) -> ast.Name:
         """Returns the name of the UNSET sentinel instance, importing the user's
         override (config.unset_instance) or generating the builtin bundle."""
diff --git a/turms/utils.py b/turms/utils.py
index e82085b..7af0c80 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -118,6 +118,7 @@ def non_typename_fields(
     node: FieldNode | FragmentDefinitionNode,
     type: GraphQLNamedType,
     client_schema: GraphQLSchema,
+    registry: ClassRegistry,
 ) -> List[FieldNode | SelectionNode]:
     """Returns all fields in a FieldNode that are not __typename"""
     if not node.selection_set:
@@ -125,12 +126,17 @@ def non_typename_fields(
     return [
         field
         for field in resolve_inline_fragments(
-            node.selection_set.selections, type, client_schema
+            node.selection_set.selections, type, client_schema, registry
         )
         if not (isinstance(field, FieldNode) and field.name.value == "__typename")
     ]
 
 
+def is_conditional(directives: Sequence[DirectiveNode]) -> bool:
+    """Checks whether the server may leave out what carries the directives"""
+    return any(directive.name.value in ("skip", "include") for directive in directives)
+
+
 def with_conditions(node: FieldNode, directives: Sequence[DirectiveNode]) -> FieldNode:
     """Moves the directives of an inline fragment onto a field it selects"""
     if not directives:
@@ -144,13 +150,15 @@ def resolve_inline_fragments(
     selections: Sequence[SelectionNode],
     type: GraphQLCompositeType,
     client_schema: GraphQLSchema,
+    registry: ClassRegistry,
     directives: Sequence[DirectiveNode] = (),
 ) -> List[SelectionNode]:
     """Resolves inline fragments to the concrete types they apply to
 
     Inline fragments applying to every value of the type are replaced by their
     selections, all others end up as inline fragments on object types, which contain
-    no further inline fragments.
+    no further inline fragments. Fragments which are spread under a condition can not
+    be inherited, as their fields may be left out, and are resolved the same way.
     """
     resolved: List[SelectionNode] = []
     for node in selections:
@@ -158,16 +166,19 @@ def resolve_inline_fragments(
             resolved.append(with_conditions(node, directives))
             continue
 
-        if not isinstance(node, InlineFragmentNode):
-            resolved.append(node)
-            continue
+        conditions = (*directives, *node.directives)
+
+        if isinstance(node, FragmentSpreadNode):
+            if not is_conditional(conditions):
+                resolved.append(node)
+                continue
+            node = registry.get_fragment_definition(node.name.value)
 
         condition = (
             client_schema.get_type(node.type_condition.name.value)
             if node.type_condition
             else type
         )
-        conditions = (*directives, *node.directives)
 
         def applies_to(member: GraphQLNamedType) -> bool:
             return member is condition or (
@@ -177,7 +188,11 @@ def resolve_inline_fragments(
 
         if applies_to(type):
             resolved += resolve_inline_fragments(
-                node.selection_set.selections, type, client_schema, conditions
+                node.selection_set.selections,
+                type,
+                client_schema,
+                registry,
+                conditions,
             )
         elif is_abstract_type(type):
             resolved += [
@@ -190,6 +205,7 @@ def resolve_inline_fragments(
                                 node.selection_set.selections,
                                 member,
                                 client_schema,
+                                registry,
                                 conditions,
                             )
                         )
-- 
2.43.0


From 1d3575a6411a4be1ff57063d289c9721a7236356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:01 +0000
Subject: [PATCH 83/85] fix: accept operations which select nothing but the
 typename of their only field

---
 turms/plugins/funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index a561ff3..06185c7 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -765,7 +765,7 @@ def get_return_type_annotation(
             registry,
         )
 
-        if len(sub_nodes) == 0:  # pragma: no cover
+        if not collapsable_field.selection_set:  # pragma: no cover
             return recurse_outputtype_annotation(field_definition.type, registry)
 
         if len(sub_nodes) == 1:  # Dealing with one Element
@@ -836,7 +836,7 @@ def get_return_type_string(
             registry,
         )
 
-        if len(sub_nodes) == 0:  # Dealing with a scalar type  # pragma: no cover
+        if not potential_return_field.selection_set:  # pragma: no cover
             return recurse_outputtype_label(potential_return_type.type, registry)
 
         if len(sub_nodes) == 1:  # Dealing with one Element
-- 
2.43.0


From f413f3938d1bf797f568f8ab6eb3aa57025e220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:12 +0000
Subject: [PATCH 84/85] fix: refuse to import different things under the same
 name

---
 turms/registry.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/turms/registry.py b/turms/registry.py
index 1646737..67eaaa1 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -746,7 +746,15 @@ class ClassRegistry(object):
 
         lone_top_imports: Set[str] = set()
         top_level: Dict[str, Set[str]] = {}
-        for name in self._imports:
+        imported: Dict[str, str] = {}
+        for name in sorted(self._imports):
+            other = imported.setdefault(name.split(".")[-1], name)
+            if other != name:
+                raise RegistryError(
+                    f"Cannot import both {other} and {name}. The generated code would "
+                    "use one of them for the other"
+                )
+
             if "." not in name:
                 lone_top_imports.add(name)
             else:
-- 
2.43.0


From 5e08bda57c2b3b4290ccc09ec281da4667344226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:31 +0000
Subject: [PATCH 85/85] fix: tell functions of similar names apart and refuse
 other definitions replacing one another

---
 turms/collisions.py    | 68 ++++++++++++++++++++++++++++++++++++++++++
 turms/plugins/funcs.py | 10 ++++++-
 turms/registry.py      | 33 +++++++++++++++-----
 turms/run.py           |  3 ++
 4 files changed, 105 insertions(+), 9 deletions(-)
 create mode 100644 turms/collisions.py

diff --git a/turms/collisions.py b/turms/collisions.py
new file mode 100644
index 0000000..87042eb
--- /dev/null
+++ b/turms/collisions.py
@@ -0,0 +1,68 @@
+import ast
+from typing import Dict, List, Set
+
+from turms.errors import GenerationError
+
+
+def get_alias(field: ast.AnnAssign, name: str) -> str:
+    """Returns the name under which a generated field is sent and received"""
+    if isinstance(field.value, ast.Call):
+        for keyword in field.value.keywords:
+            if keyword.arg == "alias" and isinstance(keyword.value, ast.Constant):
+                return keyword.value.value
+    return name
+
+
+def refuse_colliding_fields(
+    cls: ast.ClassDef, fields_of: Dict[str, Dict[str, str]]
+) -> Dict[str, str]:
+    """Collects the (inherited) fields of a class together with their aliases
+
+    Raises:
+        GenerationError: If two different fields ended up with the same python name
+    """
+    fields: Dict[str, str] = {}
+    inherited = [
+        fields_of.get(base.id, {}) for base in cls.bases if isinstance(base, ast.Name)
+    ]
+    own = [
+        {item.target.id: get_alias(item, item.target.id)}
+        for item in cls.body
+        if isinstance(item, ast.AnnAssign) and isinstance(item.target, ast.Name)
+    ]
+    for some in (*inherited, *own):
+        for name, alias in some.items():
+            if fields.setdefault(name, alias) != alias:
+                raise GenerationError(
+                    f"The fields {fields[name]} and {alias} of {cls.name} would both be "
+                    f"called {name}. Please alias one of them or change your stylers"
+                )
+    for item in cls.body:
+        if isinstance(item, ast.ClassDef):
+            refuse_colliding_fields(item, fields_of)
+    return fields
+
+
+def refuse_collisions(tree: List[ast.AST], shared: Set[str]) -> None:
+    """Refuses code in which one definition would silently replace another
+
+    Args:
+        tree (List[ast.AST]): The generated code
+        shared (Set[str]): Names which may be defined repeatedly
+
+    Raises:
+        GenerationError: If two definitions ended up with the same python name
+    """
+    defined: Set[str] = set()
+    fields_of: Dict[str, Dict[str, str]] = {}
+    for node in tree:
+        if not isinstance(node, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
+            continue
+        if node.name in defined and node.name not in shared:
+            raise GenerationError(
+                f"Several definitions would be called {node.name}. Please rename one of "
+                "them or change your stylers"
+            )
+        defined.add(node.name)
+        if isinstance(node, ast.ClassDef):
+            fields_of[node.name] = refuse_colliding_fields(node, fields_of)
diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 06185c7..5dec5c1 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -1468,9 +1468,11 @@ class FuncsPlugin(Plugin):
             if isinstance(node, OperationDefinitionNode)
         ]
 
+        taken = registry.get_class_names()
+
         for operation in operations:
             for definition in get_definitions_for_onode(operation, plugin_config):
-                plugin_tree += generate_operation_func(
+                functions = generate_operation_func(
                     definition,
                     operation,
                     client_schema,
@@ -1478,5 +1480,11 @@ class FuncsPlugin(Plugin):
                     plugin_config,
                     registry,
                 )
+                for function in functions:
+                    # e.g. the asynchronous function of another operation
+                    while function.name in taken:
+                        function.name += "_"
+                    taken.add(function.name)
+                plugin_tree += functions
 
         return plugin_tree
diff --git a/turms/registry.py b/turms/registry.py
index 67eaaa1..ddb7b45 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -300,6 +300,17 @@ class ClassRegistry(object):
                 }[definition.operation]
                 self.claimed_class_names.add(style(definition.name.value))
 
+    def get_class_names(self) -> Set[str]:
+        """Returns the names of all classes of the module that are known yet"""
+        return {
+            *self.claimed_class_names,
+            *self.enum_class_map.values(),
+            *self.inputtype_class_map.values(),
+            *self.object_class_map.values(),
+            *self.interface_baseclass_map.values(),
+            *self.interface_reference_map.values(),
+        }
+
     def claim_nested_class(self, name: str, suffixes: Sequence[str] = ("",)) -> str:
         """Claims the name of a class that is generated for a nested selection
 
@@ -314,14 +325,7 @@ class ClassRegistry(object):
         Returns:
             str: The (potentially numbered) name, without the suffix
         """
-        taken = {
-            *self.claimed_class_names,
-            *self.enum_class_map.values(),
-            *self.inputtype_class_map.values(),
-            *self.object_class_map.values(),
-            *self.interface_baseclass_map.values(),
-            *self.interface_reference_map.values(),
-        }
+        taken = self.get_class_names()
         unique_name = name
         number = 2
         while any(f"{unique_name}{suffix}" in taken for suffix in suffixes):
@@ -740,6 +744,19 @@ class ClassRegistry(object):
 
         self._imports.add(name)
 
+    def get_shared_names(self) -> Set[str]:
+        """Returns the classes of operations which are named like a fragment"""
+        return {
+            classname
+            for operations in (
+                self.query_class_map,
+                self.mutation_class_map,
+                self.subscription_class_map,
+            )
+            for typename, classname in operations.items()
+            if self.fragment_class_map.get(typename) == classname
+        }
+
     def generate_imports(self) -> List[ast.AST]:
         """Generate the imports for the generated code. This is used to generate the"""
         imports: List[ast.AST] = []
diff --git a/turms/run.py b/turms/run.py
index c6b7b0a..1ad4e3d 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -13,6 +13,7 @@ from graphql import (
 from pydantic import ValidationError
 from rich import get_console
 
+from turms.collisions import refuse_collisions
 from turms.config import (
     GeneratorConfig,
     GraphQLConfigMultiple,
@@ -502,6 +503,8 @@ def generate_ast(
                 f"{plugin.__class__.__name__} failed!\n {str(e)}"
             ) from e
 
+    refuse_collisions(global_tree, registry.get_shared_names())
+
     global_tree = (
         registry.generate_imports() + registry.generate_builtins() + global_tree
     )
-- 
2.43.0

