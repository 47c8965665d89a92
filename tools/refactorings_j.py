"""More behaviour-preserving edits: strings built up in place, state machines, folds with tuples, base-class helpers."""
BL = "nodes/node_bullet_list.py"
OL = "nodes/node_ordered_list.py"
TL = "nodes/node_task_list.py"
TB = "nodes/node_table.py"
TR = "nodes/node_table_row.py"
TC = "nodes/node_table_cell.py"
DI = "nodes/node_decision_item.py"
DL = "nodes/node_decision_list.py"
HD = "nodes/node_heading.py"
CB = "nodes/node_code_block.py"
EX = "nodes/node_expand.py"
PN = "nodes/node_panel.py"
BQ = "nodes/node_blockquote.py"
ME = "nodes/node_media.py"
MH = "markdown_helpers.py"
MN = "mark_or_node.py"
GC = "gen_code.py"

TR_OLD = '''        cells = []
        for cell in self.content:
            md = cell.to_markdown(ignore_error=ignore_error)
            cells.append(md)
        return "| " + " | ".join(cells) + " |"
'''
TC_OLD = '''        lines = md.split("\\n")
        processed_lines = []
        for line in lines:
            stripped = line.lstrip(" ")
            leading_spaces = len(line) - len(stripped)
            if leading_spaces > 0:
                # Replace leading spaces with &nbsp;
                line = "&nbsp;" * leading_spaces + stripped
            processed_lines.append(line)

        return "<br>".join(processed_lines)
'''
TB_OLD = '''        lines = list()
        for row in self.content:
            try:
                md = row.to_markdown(ignore_error=ignore_error)
                lines.append(md)
                if (
                    len(lines) == 1
                    and row.content
                    and row.content[0].is_type_of(TypeEnum.tableHeader)
                ):
                    lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e
        return "\\n".join(lines)
'''
CM_LOOP = '''        lst = list()
        for node in content:
            try:
                md = node.to_markdown(ignore_error=ignore_error)
                lst.append(md)
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e
        return concat.join(lst)
'''
DI_OLD = '''        prefixed_lines = []
        line_count = 0  # Count of non-empty content lines
        prev_was_empty = False
        for line in raw_lines:
            line = line.rstrip()
            is_empty = not line

            if is_empty:
                # Skip empty lines after only the first content line
                # (skip leading blanks after title)
                # Also skip consecutive empty lines
                if line_count <= 1 or prev_was_empty:
                    continue
                prefixed_lines.append(">")
                prev_was_empty = True
            else:
                prefixed_lines.append(f"> {line}")
                line_count += 1
                prev_was_empty = False

        return "\\n".join(prefixed_lines)
'''
TL_ITEM = '''                content_parts = []
                for node in item.content if item.content is not OPT else []:
                    try:
                        md = node.to_markdown(ignore_error=ignore_error)
                        content_parts.append(md)
                    except Exception as e:
                        if ignore_error:
                            pass
                        else:
                            raise e

                # Join content parts (they should be on the same line)
                # Use rstrip() on the final result to remove trailing whitespace
                item_content = "".join(content_parts).rstrip()
'''
DL_OLD = '''        decision_blocks = []

        for item in self.content:
            if item.is_type_of(TypeEnum.decisionItem):
                try:
                    md = item.to_markdown(ignore_error=ignore_error)
                    decision_blocks.append(md)
                except Exception as e:
                    if ignore_error:
                        pass
                    else:
                        raise e

        # Join with blank lines between each decision
        return "\\n\\n".join(decision_blocks)
'''
MH_USERS = ["C10", "C11", "C12", "C18", "C22", "C07"]
GC_LOOPS = '''    marks_by_module: dict[str, list[PublicAPI]] = {}
    for api in all_apis["marks"]:
        if api.module_name not in marks_by_module:
            marks_by_module[api.module_name] = []
        marks_by_module[api.module_name].append(api)

    nodes_by_module: dict[str, list[PublicAPI]] = {}
    for api in all_apis["nodes"]:
        if api.module_name not in nodes_by_module:
            nodes_by_module[api.module_name] = []
        nodes_by_module[api.module_name].append(api)
'''

REFACTORINGS = [
    dict(id="J01-row-string", props=["C19", "C11", "C12"], edits=[(TR, TR_OLD, '''        md = "| "
        for i, cell in enumerate(self.content):
            if i:
                md += " | "
            md += cell.to_markdown(ignore_error=ignore_error)
        md += " |"
        return md
''')]),
    dict(id="J02-row-pieces", props=["C19", "C11", "C12"], edits=[(TR, TR_OLD, '''        pieces = ["|"]
        for cell in self.content:
            pieces.append(cell.to_markdown(ignore_error=ignore_error))
            pieces.append("|")
        if len(pieces) == 1:
            return "|  |"
        return " ".join(pieces)
''')]),
    dict(id="J03-cell-consume", props=["C18"], edits=[(TC, TC_OLD, '''        out = []
        for line in md.split("\\n"):
            width = 0
            rest = line
            while rest.startswith(" "):
                rest = rest[1:]
                width += 1
            out.append("&nbsp;" * width + rest)
        return "<br>".join(out)
''')]),
    dict(id="J04-cell-string", props=["C18"], edits=[(TC, TC_OLD, '''        first, *others = md.split("\\n")

        def escape(line):
            rest = line.lstrip(" ")
            return "&nbsp;" * (len(line) - len(rest)) + rest

        result = escape(first)
        for line in others:
            result += "<br>" + escape(line)
        return result
''')]),
    dict(id="J05-cell-prefix", props=["C18"], edits=[(TC, TC_OLD, '''        lines = md.split("\\n")
        for i, line in enumerate(lines):
            rest = line.lstrip(" ")
            spaces = line.removesuffix(rest) if rest else line
            lines[i] = spaces.replace(" ", "&nbsp;") + rest
        return "<br>".join(lines)
''')]),
    dict(id="J06-table-first-row", props=["C19", "C11", "C12"], edits=[(TB, TB_OLD, '''        rendered = []
        for row in self.content:
            try:
                md = row.to_markdown(ignore_error=ignore_error)
            except Exception:
                if not ignore_error:
                    raise
            else:
                rendered.append((row, md))
        lines = [md for _, md in rendered]
        if rendered:
            cells = rendered[0][0].content
            if cells and cells[0].is_type_of(TypeEnum.tableHeader):
                lines.insert(1, "| " + " | ".join("---" for _ in cells) + " |")
        return "\\n".join(lines)
''')]),
    dict(id="J07-table-generator", props=["C19", "C11", "C12"], edits=[(TB, TB_OLD, '''        return "\\n".join(self._lines(ignore_error))

    def _lines(self, ignore_error):
        header_done = False
        for row in self.content:
            try:
                md = row.to_markdown(ignore_error=ignore_error)
            except Exception:
                if not ignore_error:
                    raise
                continue
            yield md
            if not header_done:
                header_done = True
                if row.content and row.content[0].is_type_of(TypeEnum.tableHeader):
                    yield "| " + " | ".join(["---"] * len(row.content)) + " |"
''')]),
    dict(id="J08-content-try-else", props=MH_USERS, edits=[(MH, CM_LOOP, '''        result = ""
        first = True
        for node in content:
            try:
                md = node.to_markdown(ignore_error=ignore_error)
            except Exception:
                if not ignore_error:
                    raise
            else:
                result = md if first else result + concat + md
                first = False
        return result
''')]),
    dict(id="J09-content-base-helper", props=MH_USERS, edits=[(MN, '''    def to_markdown(self, ignore_error: bool = False) -> str:
''', '''    def try_markdown(self, ignore_error: bool = False) -> T.Optional[str]:
        """The Markdown of this node, or None when it fails and errors are ignored."""
        try:
            return self.to_markdown(ignore_error=ignore_error)
        except Exception:
            if ignore_error:
                return None
            raise

    def to_markdown(self, ignore_error: bool = False) -> str:
'''), (MH, CM_LOOP, '''        lst = [node.try_markdown(ignore_error=ignore_error) for node in content]
        return concat.join([md for md in lst if md is not None])
''')]),
    dict(id="J10-decision-state", props=["C21"], edits=[(DI, DI_OLD, '''        START, TITLE, TEXT, GAP = range(4)
        state = START
        prefixed_lines = []
        for line in raw_lines:
            line = line.rstrip()
            if line:
                prefixed_lines.append("> " + line)
                state = TITLE if state == START else TEXT
            elif state == TEXT:
                prefixed_lines.append(">")
                state = GAP
        return "\\n".join(prefixed_lines)
''')]),
    dict(id="J11-decision-pending", props=["C21"], edits=[(DI, DI_OLD, '''        texts = 0
        pending = False
        out = []
        for line in (raw.rstrip() for raw in raw_lines):
            if not line:
                pending = texts > 1
                continue
            if pending:
                out.append(">")
                pending = False
            out.append(f"> {line}")
            texts += 1
        return "\\n".join(out)
''')]),
    dict(id="J12-task-join", props=["C17", "C11"], edits=[(TL, TL_ITEM, '''                if item.content is OPT:
                    item_content = ""
                else:
                    item_content = content_to_markdown(
                        item.content, ignore_error=ignore_error
                    ).rstrip()
'''), (TL, '''from ..mark_or_node import Base, BaseNode
''', '''from ..mark_or_node import Base, BaseNode
from ..markdown_helpers import content_to_markdown
''')]),
    dict(id="J13-task-handlers", props=["C17", "C11"], edits=[(TL, '''                checkbox = "[x]" if item.attrs.state == "DONE" else "[ ]"
''', '''                checkbox = "[{}]".format({True: "x", False: " "}[item.attrs.state == "DONE"])
''')]),
    dict(id="J14-decision-list-filter", props=["C21", "C11", "C12"], edits=[(DL, DL_OLD, '''        def blocks():
            for item in self.content:
                if not item.is_type_of(TypeEnum.decisionItem):
                    continue
                try:
                    md = item.to_markdown(ignore_error=ignore_error)
                except Exception:
                    if ignore_error:
                        continue
                    raise
                yield md

        return "\\n\\n".join(blocks())
''')]),
    dict(id="J15-heading-percent", props=["C10"], edits=[(HD, '''        md = (
            "\\n\\n"
            + "{} {}".format(
                "#" * self.attrs.level,
                content_to_markdown(content=self.content, ignore_error=ignore_error),
            )
            + "\\n\\n"
        )
        return md
''', '''        hashes = "".join("#" for _ in range(self.attrs.level))
        title = content_to_markdown(content=self.content, ignore_error=ignore_error)
        return "\\n\\n%s %s\\n\\n" % (hashes, title)
''')]),
    dict(id="J16-code-fence", props=["C22"], edits=[(CB, '''        lang = ""
        if self.attrs is not OPT:
            if isinstance(self.attrs.language, str):
                lang = ATLASSIAN_LANG_TO_MARKDOWN_LANG_MAPPING.get(
                    self.attrs.language,
                    self.attrs.language,
                )
        if lang == "none":
            lang = ""
        return f"```{lang}\\n{code}\\n```"
''', '''        language = OPT if self.attrs is OPT else self.attrs.language
        if language is OPT or language == "none":
            language = ""
        fence = "`" * 3
        return "\\n".join([fence + language, code, fence])
''')]),
    dict(id="J17-quote-lines", props=["C20"], edits=[(BQ, '''        return (
            textwrap.indent(
                strip_double_empty_line(
                    doc_content_to_markdown(
                        content=self.content,
                        ignore_error=ignore_error,
                    )
                ),
                prefix="> ",
                predicate=lambda line: True,
            )
            + "\\n"
        )''', '''        body = doc_content_to_markdown(
            content=self.content,
            ignore_error=ignore_error,
        )
        quoted = textwrap.indent(body, "> ", predicate=bool)
        return f"{quoted}\\n"
''')]),
    dict(id="J18-panel-shared", props=["C20"], edits=[(PN, '''        return (
            textwrap.indent(
                strip_double_empty_line(
                    "\\n".join(
                        [
                            f"**{self.attrs.panelType.upper()}**",
                            "",
                            doc_content_to_markdown(
                                content=self.content,
                                ignore_error=ignore_error,
                            ),
                        ]
                    )
                ),
                prefix="> ",
                predicate=lambda line: True,
            )
            + "\\n"
        )''', '''        title = "**%s**" % self.attrs.panelType.upper()
        body = doc_content_to_markdown(content=self.content, ignore_error=ignore_error)
        text = strip_double_empty_line(f"{title}\\n\\n{body}")
        lines = text.splitlines(keepends=True)
        return "".join("> " + line for line in lines) + "\\n"
''')]),
    dict(id="J19-media-table", props=["C24", "C09"], edits=[(ME, '''        # For external media, return as markdown image/link
        if self.attrs.is_external_type() and isinstance(self.attrs.url, str):
            alt = self.attrs.alt if isinstance(self.attrs.alt, str) else "media"
            md = f"![{alt}]({self.attrs.url})"
            return add_style_to_markdown(md, self)
        # For internal media, return placeholder with id
        elif self.attrs.is_file_type():
            alt = self.attrs.alt if isinstance(self.attrs.alt, str) else "media"
            md = f"![{alt}](media:{self.attrs.id})"
            return add_style_to_markdown(md, self)
        elif self.attrs.is_link_type():
            return "[media]"  # TODO: implement link type markdown
        else:
            raise TypeError("Invalid media node attributes")
''', '''        attrs = self.attrs
        if attrs.is_link_type():
            return "[media]"  # TODO: implement link type markdown
        if attrs.is_external_type() and isinstance(attrs.url, str):
            target = attrs.url
        elif attrs.is_file_type():
            target = f"media:{attrs.id}"
        else:
            raise TypeError("Invalid media node attributes")
        alt = "media" if attrs.alt is OPT else attrs.alt
        return add_style_to_markdown(md="![" + alt + "](" + target + ")", node=self)
''')]),
    dict(id="J20-from-dict-table", props=["C02", "C03", "C04", "C05", "C07"], edits=[(MN, '''        # Deserialize content (child nodes)
        if "content" in dct and "content" in cls.get_fields():
            if isinstance(dct["content"], list) and parse_node is not None:
                new_content = []
                for d in dct["content"]:
                    try:
                        content = parse_node(d)
                        new_content.append(content)
                    except UnimplementedTypeError as e:
                        # Skip unimplemented node types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
                        # Skip this node and continue
                    # Other exceptions propagate normally
                dct["content"] = new_content

        # Deserialize marks
        if "marks" in dct and "marks" in cls.get_fields():
            if isinstance(dct["marks"], list) and parse_mark is not None:
                new_marks = []
                for d in dct["marks"]:
                    try:
                        mark = parse_mark(d)
                        new_marks.append(mark)
                    except UnimplementedTypeError as e:
                        # Skip unimplemented mark types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
                        # Skip this mark and continue
                    # Other exceptions propagate normally
                dct["marks"] = new_marks
''', '''        def parse_or_none(parse, d):
            try:
                return parse(d)
            except UnimplementedTypeError as e:
                if settings.WARN_UNIMPLEMENTED_TYPE:
                    logger.warning(str(e))
                return None

        declared = cls.get_fields()
        for key, parse in {"content": parse_node, "marks": parse_mark}.items():
            entries = dct.get(key)
            if key not in declared or not isinstance(entries, list):
                continue
            elements = [parse_or_none(parse, d) for d in entries]
            dct[key] = [x for x in elements if x is not None]
''')]),
    dict(id="J21-attrs-shared", props=["C02", "C04", "C05", "C07"], edits=[(MN, '''        dct = copy.deepcopy(dct)
        if "attrs" in dct:
            fields = cls.get_fields()
            if "attrs" in fields:
                attrs_field = fields["attrs"]
                # Check if attrs field type has from_dict method
                if hasattr(attrs_field.type, "from_dict"):
                    dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])
        return super().from_dict(dct)
''', '''        return super().from_dict(cls._with_attrs(copy.deepcopy(dct)))
'''), (MN, '''        dct = copy.deepcopy(dct)

        # Deserialize attrs
        if "attrs" in dct:
            fields = cls.get_fields()
            if "attrs" in fields:
                attrs_field = fields["attrs"]
                if hasattr(attrs_field.type, "from_dict"):
                    dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])
''', '''        dct = cls._with_attrs(copy.deepcopy(dct))
'''), (MN, '''    def is_type_of(
        self,
''', '''    @classmethod
    def _with_attrs(cls, dct: T_DATA) -> T_DATA:
        field = cls.get_fields().get("attrs")
        reader = None if field is None else getattr(field.type, "from_dict", None)
        if reader is None or "attrs" not in dct:
            return dct
        return {**dct, "attrs": reader(dct["attrs"])}

    def is_type_of(
        self,
''')]),
    dict(id="J22-to-dict-each", props=["C06", "C07"], edits=[(MN, '''        # Build dict directly without modifying the frozen instance
        data = dataclasses.asdict(self)

        # Serialize attrs
        if "attrs" in data and data["attrs"] is not OPT:
            if hasattr(self.attrs, "to_dict"):
                data["attrs"] = self.attrs.to_dict()

        # Serialize content
        if "content" in data and data["content"] is not OPT:
            data["content"] = [c.to_dict() for c in self.content]

        # Serialize marks
        if "marks" in data and data["marks"] is not OPT:
            data["marks"] = [m.to_dict() for m in self.marks]

        return remove_optional(**data)
''', '''        data = {}
        for name in self.get_fields():
            value = getattr(self, name)
            if value is OPT:
                continue
            if name == "attrs" and hasattr(value, "to_dict"):
                data[name] = value.to_dict()
            elif name in ("content", "marks"):
                data[name] = [element.to_dict() for element in value]
            else:
                data[name] = copy.deepcopy(value)
        return data
''')]),
    dict(id="J23-get-fields-setdefault", props=["C25", "C27", "C04"], edits=[(MN, '''        try:
            return _CLASS_FIELD[cls]
        except KeyError:
            _CLASS_FIELD[cls] = {field.name: field for field in dataclasses.fields(cls)}
            return _CLASS_FIELD[cls]
''', '''        fields = _CLASS_FIELD.get(cls)
        if fields is None:
            fields = dict((f.name, f) for f in dataclasses.fields(cls))
            fields = _CLASS_FIELD.setdefault(cls, fields)
        return fields
''')]),
    dict(id="J24-style-nested-fn", props=["C09", "C24"], edits=[(MH, '''    try:
        if isinstance(node.marks, list):
            for mark in node.marks:
                md = mark.to_markdown(md)
    # some node doesn't have marks attribute (don't support styles)
    except AttributeError:
        pass
    return md
''', '''    def apply(text, marks):
        styled = text
        for mark in marks:
            styled = mark.to_markdown(styled)
        return styled

    marks = getattr(node, "marks", None)
    if not isinstance(marks, list):
        return md
    return apply(md, marks)
''')]),
    dict(id="J25-bullet-accumulate", props=["C15", "C11"], edits=[(BL, '''                # Format the first line with bullet point
                bullet_content = item_content.split("\\n")[0]
                first_line = f"{indent}- {bullet_content}"
                lines.append(first_line)

                # Add remaining lines
                remaining_lines = item_content.split("\\n")[1:]
                if remaining_lines:
                    lines.extend(remaining_lines)
''', '''                for number, line in enumerate(item_content.split("\\n")):
                    lines.append(line if number else f"{indent}- {line}")
''')]),
    dict(id="J26-ordered-prefix", props=["C16", "C11"], edits=[(OL, '''        # Start numbering from attrs.order (or 1 for inner levels)
        if (
            level == 0
            and self.attrs is not OPT
            and isinstance(self.attrs.order, int)
        ):
            current_num = self.attrs.order
        else:
            current_num = 1
''', '''        current_num = 1
        if not level and self.attrs is not OPT:
            order = self.attrs.order
            current_num = order if isinstance(order, int) else current_num
''')]),
    dict(id="J27-doc-pad", props=["C14", "C13", "C20", "C11", "C12"], edits=[(MH, '''                if node.is_type_of(
                    [
                        TypeEnum.bulletList,
                        TypeEnum.orderedList,
                        TypeEnum.codeBlock,
                    ]
                ):
                    md = "\\n" + node.to_markdown(ignore_error=ignore_error) + "\\n"
                else:
                    md = node.to_markdown(ignore_error=ignore_error)
''', '''                spaced = any(
                    node.is_type_of(t)
                    for t in (
                        TypeEnum.bulletList,
                        TypeEnum.orderedList,
                        TypeEnum.codeBlock,
                    )
                )
                pad = "\\n" * spaced
                md = f"{pad}{node.to_markdown(ignore_error=ignore_error)}{pad}"
''')]),
    dict(id="J28-gen-sorted-groupby", props=["C28"], edits=[(GC, GC_LOOPS, '''    def by_module(apis):
        groups: dict[str, list[PublicAPI]] = {}
        for api in apis:
            group = groups.get(api.module_name)
            if group is None:
                group = groups[api.module_name] = []
            group.append(api)
        return groups

    marks_by_module = by_module(all_apis["marks"])
    nodes_by_module = by_module(all_apis["nodes"])
''')]),
    dict(id="J29-gen-scan-guards", props=["C28"], edits=[(GC, '''        # Skip private/protected members
        if name.startswith("_"):
            continue

        # Check if it's a class defined in this module
        if inspect.isclass(obj) and obj.__module__ == full_module_name:
            # Check if it inherits from any of the base classes
            if issubclass(obj, base_classes):
                is_attrs = name.endswith("Attrs")
                public_apis.append(
                    PublicAPI(
                        module_name=module_name,
                        class_name=name,
                        is_attrs=is_attrs,
                    )
                )
''', '''        if name[:1] == "_":
            continue

        own_class = isinstance(obj, type) and obj.__module__ == module.__name__
        if own_class and any(issubclass(obj, base) for base in base_classes):
            public_apis.append(
                PublicAPI(module_name, name, is_attrs=name.endswith("Attrs"))
            )
''')]),
    dict(id="J30-gen-dirs", props=["C28"], edits=[(GC, '''    result = {
        "marks": [],
        "nodes": [],
    }

    # Scan marks directory
    marks_dir = path_enum.dir_package / "marks"
    for module_path in sorted(marks_dir.glob("mark_*.py")):
        apis = scan_module_for_public_apis(module_path, base_classes)
        result["marks"].extend(apis)

    # Scan nodes directory
    nodes_dir = path_enum.dir_package / "nodes"
    for module_path in sorted(nodes_dir.glob("node_*.py")):
        apis = scan_module_for_public_apis(module_path, base_classes)
        result["nodes"].extend(apis)

    return result
''', '''    result = {}
    for folder, pattern in [("marks", "mark_*.py"), ("nodes", "node_*.py")]:
        result[folder] = [
            api
            for path in sorted(path_enum.dir_package.joinpath(folder).glob(pattern))
            for api in scan_module_for_public_apis(path, base_classes)
        ]
    return result
''')]),
]
