"""Behaviour-preserving edits of the package, for tools/refactor.py."""
M, H = "mark_or_node.py", "markdown_helpers.py"
FD = '''        _fields = cls.get_fields()
        kwargs = {}
        for field_name, field in _fields.items():
            try:
                kwargs[field_name] = dct[field_name]
            except KeyError:
                pass
        return cls(**kwargs)
'''
ATTRS_MARK = '''        dct = copy.deepcopy(dct)
        if "attrs" in dct:
            fields = cls.get_fields()
            if "attrs" in fields:
                attrs_field = fields["attrs"]
                # Check if attrs field type has from_dict method
                if hasattr(attrs_field.type, "from_dict"):
                    dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])
        return super().from_dict(dct)
'''
ATTRS_NODE = '''        # Deserialize attrs
        if "attrs" in dct:
            fields = cls.get_fields()
            if "attrs" in fields:
                attrs_field = fields["attrs"]
                if hasattr(attrs_field.type, "from_dict"):
                    dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])
'''
CONTENT = '''        if "content" in dct and "content" in cls.get_fields():
            if isinstance(dct["content"], list) and parse_node is not None:
                new_content = []
                for d in dct["content"]:
                    try:
                        content = parse_node(d)
                        new_content.append(content)
                    except UnimplementedTypeError as e:
                        # Skip unimplemented node types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
                        # Skip this node and continue
                    # Other exceptions propagate normally
                dct["content"] = new_content
'''
MARKS = '''        if "marks" in dct and "marks" in cls.get_fields():
            if isinstance(dct["marks"], list) and parse_mark is not None:
                new_marks = []
                for d in dct["marks"]:
                    try:
                        mark = parse_mark(d)
                        new_marks.append(mark)
                    except UnimplementedTypeError as e:
                        # Skip unimplemented mark types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
                        # Skip this mark and continue
                    # Other exceptions propagate normally
                dct["marks"] = new_marks
'''
FROM = '''        _fields = cls.get_fields()
        kwargs = {}
        for field_name, field in _fields.items():
            try:
                kwargs[field_name] = dct[field_name]
            except KeyError:
                pass
        return cls(**kwargs)
'''
GET = '''        try:
            return _CLASS_FIELD[cls]
        except KeyError:
            _CLASS_FIELD[cls] = {field.name: field for field in dataclasses.fields(cls)}
            return _CLASS_FIELD[cls]
'''
NODE_DICT = '''        data = dataclasses.asdict(self)

        # Serialize attrs
        if "attrs" in data and data["attrs"] is not OPT:
            if hasattr(self.attrs, "to_dict"):
                data["attrs"] = self.attrs.to_dict()

        # Serialize content
        if "content" in data and data["content"] is not OPT:
            data["content"] = [c.to_dict() for c in self.content]

        # Serialize marks
        if "marks" in data and data["marks"] is not OPT:
            data["marks"] = [m.to_dict() for m in self.marks]

        return remove_optional(**data)
'''
HELPER_AT = '''T_BASE = T.TypeVar("T_BASE", bound=Base)
'''
C2M = '''    if content is OPT:
        return ""
    else:
        lst = list()
        for node in content:
            try:
                md = node.to_markdown(ignore_error=ignore_error)
                lst.append(md)
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e
        return concat.join(lst)
'''
DOC = '''    if content is OPT:
        return ""
    else:
        lst = list()
        for node in content:
            # print("----- Work on a new node -----")  # for debug only
            try:
                # Add extra newlines around block elements that need separation
                if node.is_type_of(
                    [
                        TypeEnum.bulletList,
                        TypeEnum.orderedList,
                        TypeEnum.codeBlock,
                    ]
                ):
                    md = "\\n" + node.to_markdown(ignore_error=ignore_error) + "\\n"
                else:
                    md = node.to_markdown(ignore_error=ignore_error)
                # print(f"{node = }")  # for debug only
                # print(f"{md = }")  # for debug only
                lst.append(md)
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e

    md = strip_double_empty_line(concat.join(lst))
    return md
'''
STRIP = '''    while "\\n\\n\\n" in text:
        text = text.replace("\\n\\n\\n", "\\n\\n")
    return text
'''
STYLE = '''    try:
        if isinstance(node.marks, list):
            for mark in node.marks:
                md = mark.to_markdown(md)
    # some node doesn't have marks attribute (don't support styles)
    except AttributeError:
        pass
    return md
'''
BUL_TAIL = '''                # Format the first line with bullet point
                bullet_content = item_content.split("\\n")[0]
                first_line = f"{indent}- {bullet_content}"
                lines.append(first_line)

                # Add remaining lines
                remaining_lines = item_content.split("\\n")[1:]
                if remaining_lines:
                    lines.extend(remaining_lines)
'''
BUL_INNER = '''                content_lines = []
                for node in item.content:
                    if node.is_type_of(TypeEnum.bulletList):
                        # Nested list - increase level
                        try:
                            md = node.to_markdown(
                                level=level + 1, ignore_error=ignore_error
                            )
                            content_lines.append(md)
                        except Exception as e:
                            if ignore_error:
                                pass
                            else:
                                raise e
                    else:
                        # Regular content (like paragraph)
                        try:
                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                            content_lines.append(md)
                        except Exception as e:
                            if ignore_error:
                                pass
                            else:
                                raise e

                # Join the content lines
                item_content = "\\n".join(content_lines)
'''
CELL = '''        md = content_to_markdown(content=self.content, ignore_error=ignore_error)
        md = md.replace("|", "\\\\|")

        # Convert leading spaces to &nbsp; for HTML table rendering
        # (spaces after <br> are collapsed in HTML, so we need &nbsp;)
        lines = md.split("\\n")
        processed_lines = []
        for line in lines:
            stripped = line.lstrip(" ")
            leading_spaces = len(line) - len(stripped)
            if leading_spaces > 0:
                # Replace leading spaces with &nbsp;
                line = "&nbsp;" * leading_spaces + stripped
            processed_lines.append(line)

        return "<br>".join(processed_lines)
'''
DOCS = ["C13", "C14", "C20", "C11", "C12", "C07"]
REFACTORINGS = [
    dict(id="F01-attrs-helper", props="parsing", edits=[
        (M, HELPER_AT, HELPER_AT + '''

def _parse_attrs(cls, dct):
    fields = cls.get_fields()
    if "attrs" in dct and "attrs" in fields:
        attrs_type = fields["attrs"].type
        if hasattr(attrs_type, "from_dict"):
            dct["attrs"] = attrs_type.from_dict(dct["attrs"])
'''),
        (M, ATTRS_MARK, '''        dct = copy.deepcopy(dct)
        _parse_attrs(cls, dct)
        return super().from_dict(dct)
'''), (M, ATTRS_NODE, "        _parse_attrs(cls, dct)\n")]),
    dict(id="F02-children-helper", props="parsing", edits=[
        (M, HELPER_AT, HELPER_AT + '''

def _parse_supported(items, parse):
    parsed = []
    for item in items:
        try:
            parsed.append(parse(item))
        except UnimplementedTypeError as e:
            if settings.WARN_UNIMPLEMENTED_TYPE:
                logger.warning(str(e))
    return parsed
'''),
        (M, CONTENT, '''        fields = cls.get_fields()
        if "content" in dct and "content" in fields:
            if isinstance(dct["content"], list):
                dct["content"] = _parse_supported(dct["content"], parse_node)
'''), (M, MARKS, '''        if "marks" in dct and "marks" in fields:
            if isinstance(dct["marks"], list):
                dct["marks"] = _parse_supported(dct["marks"], parse_mark)
''')]),
    dict(id="F03-loop-over-two", props="parsing", edits=[
        (M, CONTENT, ""),
        (M, MARKS, '''        for name, parse in (("content", parse_node), ("marks", parse_mark)):
            if name not in dct or name not in cls.get_fields():
                continue
            if not isinstance(dct[name], list):
                continue
            parsed = []
            for d in dct[name]:
                try:
                    element = parse(d)
                except UnimplementedTypeError as e:
                    if not settings.WARN_UNIMPLEMENTED_TYPE:
                        continue
                    logger.warning(str(e))
                else:
                    parsed.append(element)
            dct[name] = parsed
''')]),
    dict(id="F04-comprehension", props="parsing", edits=[(M, FROM, '''        return cls(**{name: dct[name] for name in cls.get_fields() if name in dct})
''')]),
    dict(id="F05-in-test", props="parsing", edits=[(M, FROM, '''        kwargs = {}
        for field_name in cls.get_fields():
            if field_name in dct:
                kwargs[field_name] = dct[field_name]
        return cls(**kwargs)
''')]),
    dict(id="F06-cache-get", props=["C25", "C27", "C07", "C04"], edits=[(M, GET, '''        fields = _CLASS_FIELD.get(cls)
        if fields is None:
            fields = {}
            for field in dataclasses.fields(cls):
                fields[field.name] = field
            _CLASS_FIELD[cls] = fields
        return fields
''')]),
    dict(id="F07-cache-in", props=["C25", "C27", "C07"], edits=[(M, GET, '''        if cls not in _CLASS_FIELD:
            _CLASS_FIELD[cls] = {f.name: f for f in dataclasses.fields(cls)}
        return _CLASS_FIELD[cls]
''')]),
    dict(id="F08-no-cache", props=["C25", "C27", "C07", "C04"], edits=[(M, GET, '''        return {f.name: f for f in dataclasses.fields(cls)}
''')]),
    dict(id="F09-to-dict-loop", props=["C06", "C07", "C27"], edits=[(M, NODE_DICT, '''        data = dataclasses.asdict(self)
        if "attrs" in data and data["attrs"] is not OPT and hasattr(self.attrs, "to_dict"):
            data["attrs"] = self.attrs.to_dict()
        for name in ("content", "marks"):
            if name in data and data[name] is not OPT:
                data[name] = [x.to_dict() for x in getattr(self, name)]
        return remove_optional(**data)
''')]),
    dict(id="F10-to-dict-append", props=["C06", "C07", "C27"], edits=[(M, NODE_DICT, '''        data = remove_optional(**dataclasses.asdict(self))
        if "attrs" in data:
            if hasattr(self.attrs, "to_dict"):
                data["attrs"] = self.attrs.to_dict()
        if "content" in data:
            children = []
            for c in self.content:
                children.append(c.to_dict())
            data["content"] = children
        if "marks" in data:
            data["marks"] = list(m.to_dict() for m in self.marks)
        return data
''')]),
    dict(id="F11-to-dict-fields", props=["C06", "C07"], edits=[(M, NODE_DICT, '''        data = {}
        for name, value in dataclasses.asdict(self).items():
            if value is OPT:
                continue
            if name == "attrs":
                value = self.attrs.to_dict()
            elif name in ("content", "marks"):
                value = [x.to_dict() for x in getattr(self, name)]
            data[name] = value
        return data
''')]),
    dict(id="F12-warning-args", props=["C03", "C02"], edits=[(M, CONTENT, CONTENT.replace("logger.warning(str(e))", 'logger.warning("%s", e)'))]),
    dict(id="F13-warning-helper", props=["C03", "C02"], edits=[
        (M, HELPER_AT, HELPER_AT + '''

def _warn_skipped(error):
    if settings.WARN_UNIMPLEMENTED_TYPE:
        logger.warning(f"{error}")
'''),
        (M, CONTENT, CONTENT.replace('''                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
''', "                        _warn_skipped(e)\n")),
        (M, MARKS, MARKS.replace('''                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
''', "                        _warn_skipped(e)\n"))]),
    dict(id="F14-registry-in", props=["C01", "C07", "C27"], edits=[("nodes/parse_node.py", '''    try:
        klass = NODE_TYPE_TO_CLASS_MAPPING[type_]
    except KeyError:
        raise UnimplementedTypeError(type_, "node")
    return klass.from_dict(dct)''', '''    if type_ not in NODE_TYPE_TO_CLASS_MAPPING:
        raise UnimplementedTypeError(type_value=type_, category="node")
    return NODE_TYPE_TO_CLASS_MAPPING[type_].from_dict(dct)''')]),
    dict(id="F15-registry-get", props=["C01", "C07", "C27"], edits=[("marks/parse_mark.py", '''    try:
        klass = MARK_TYPE_TO_CLASS_MAPPING[type_]
    except KeyError:
        raise UnimplementedTypeError(type_, "mark")
    return klass.from_dict(dct)''', '''    klass = MARK_TYPE_TO_CLASS_MAPPING.get(type_)
    if klass is None:
        raise UnimplementedTypeError(type_, "mark") from None
    return klass.from_dict(dct)''')]),
    dict(id="F16-type-any", props=["C26", "C14", "C15", "C19"], edits=[("type_enum.py", '''    if not isinstance(expected_types, list):
        expected_types = [expected_types]
    expected_values = [t.value for t in expected_types]
    return type_value in expected_values''', '''    if isinstance(expected_types, list):
        return any(type_value == t.value for t in expected_types)
    return type_value == expected_types.value''')]),
    dict(id="F17-type-loop", props=["C26", "C14", "C15", "C19"], edits=[("type_enum.py", '''    expected_values = [t.value for t in expected_types]
    return type_value in expected_values''', '''    for t in expected_types:
        if t.value == type_value:
            return True
    return False''')]),
    dict(id="F20-content-flat", props="rendering", edits=[(H, C2M, '''    if content is OPT:
        return ""
    parts = []
    for node in content:
        try:
            parts.append(node.to_markdown(ignore_error=ignore_error))
        except Exception:
            if not ignore_error:
                raise
    return concat.join(parts)
''')]),
    dict(id="F21-render-child-helper", props="rendering", edits=[
        (H, "def content_to_markdown(", '''def _render(node, ignore_error):
    try:
        return node.to_markdown(ignore_error=ignore_error)
    except Exception:
        if not ignore_error:
            raise
    return None


def content_to_markdown('''),
        (H, C2M, '''    if content is OPT:
        return ""
    rendered = [_render(node, ignore_error) for node in content]
    return concat.join(md for md in rendered if md is not None)
'''),
        (H, DOC, '''    if content is OPT:
        return ""
    lst = []
    for node in content:
        md = _render(node, ignore_error)
        if md is None:
            continue
        if node.is_type_of([TypeEnum.bulletList, TypeEnum.orderedList, TypeEnum.codeBlock]):
            md = f"\\n{md}\\n"
        lst.append(md)
    return strip_double_empty_line(concat.join(lst))
''')]),
    dict(id="F22-generator", props=["C10", "C14", "C18", "C11", "C12", "C07"], edits=[
        (H, "def content_to_markdown(", '''def _rendered(content, ignore_error):
    for node in content:
        try:
            md = node.to_markdown(ignore_error=ignore_error)
        except Exception:
            if ignore_error:
                continue
            raise
        yield md


def content_to_markdown('''),
        (H, C2M, '''    if content is OPT:
        return ""
    return concat.join(_rendered(content, ignore_error))
''')]),
    dict(id="F23-accumulate", props=["C10", "C11", "C12", "C22"], edits=[(H, C2M, '''    if content is OPT:
        return ""
    text = ""
    first = True
    for node in content:
        try:
            md = node.to_markdown(ignore_error=ignore_error)
        except Exception as e:
            if ignore_error:
                continue
            raise e
        if first:
            text = md
            first = False
        else:
            text += concat + md
    return text
''')]),
    dict(id="F24-suppress", props=["C10", "C11", "C12"], edits=[
        (H, "import typing as T\n", "import contextlib\nimport typing as T\n"),
        (H, C2M, '''    if content is OPT:
        return ""
    lst = []
    for node in content:
        with contextlib.suppress(Exception) if ignore_error else contextlib.nullcontext():
            lst.append(node.to_markdown(ignore_error=ignore_error))
    return concat.join(lst)
''')]),
    dict(id="F25-doc-ternary", props=DOCS, edits=[(H, DOC, '''    if content is OPT:
        return ""
    separated = [TypeEnum.codeBlock, TypeEnum.bulletList, TypeEnum.orderedList]
    lst = []
    for node in content:
        try:
            pad = "\\n" if node.is_type_of(separated) else ""
            lst.append(pad + node.to_markdown(ignore_error=ignore_error) + pad)
        except Exception:
            if not ignore_error:
                raise
    return strip_double_empty_line(concat.join(lst))
''')]),
    dict(id="F26-strip-loop", props=["C13", "C14", "C20"], edits=[(H, STRIP, '''    while True:
        shorter = text.replace("\\n\\n\\n", "\\n\\n")
        if shorter == text:
            return text
        text = shorter
''')]),
    dict(id="F27-strip-regex", props=["C13", "C14", "C20"], edits=[
        (H, "import typing as T\n", "import re\nimport typing as T\n"),
        (H, STRIP, '''    return re.sub("\\n{3,}", "\\n\\n", text)
''')]),
    dict(id="F28-style-getattr", props=["C09", "C23", "C10", "C24"], edits=[(H, STYLE, '''    marks = getattr(node, "marks", OPT)
    if not isinstance(marks, list):
        return md
    for mark in marks:
        md = mark.to_markdown(md)
    return md
''')]),
    dict(id="F29-style-reduce", props=["C09", "C23", "C10", "C24"], edits=[
        (H, "import typing as T\n", "import functools\nimport typing as T\n"),
        (H, STYLE, '''    marks = getattr(node, "marks", OPT)
    if not isinstance(marks, list):
        return md
    return functools.reduce(lambda text, mark: mark.to_markdown(text), marks, md)
''')]),
    dict(id="F30-bullet-split-once", props=["C15", "C11", "C12"], edits=[("nodes/node_bullet_list.py", BUL_TAIL, '''                first, *rest = item_content.split("\\n")
                lines.append(f"{indent}- {first}")
                lines.extend(rest)
''')]),
    dict(id="F31-bullet-partition", props=["C15"], edits=[("nodes/node_bullet_list.py", BUL_TAIL, '''                lines.append(indent + "- " + item_content)
''')]),
    dict(id="F32-bullet-helper", props=["C15", "C11", "C12", "C07"], edits=[
        ("nodes/node_bullet_list.py", BUL_INNER, '''                item_content = self._item_text(item, level, ignore_error)
'''),
        ("nodes/node_bullet_list.py", "    def to_markdown(\n", '''    @staticmethod
    def _item_text(item, level, ignore_error):
        parts = []
        for child in item.content:
            try:
                if child.is_type_of(TypeEnum.bulletList):
                    text = child.to_markdown(level=level + 1, ignore_error=ignore_error)
                else:
                    text = child.to_markdown(ignore_error=ignore_error).rstrip()
            except Exception:
                if ignore_error:
                    continue
                raise
            parts.append(text)
        return "\\n".join(parts)

    def to_markdown(
''')]),
    dict(id="F33-ordered-enumerate", props=["C16"], edits=[
        ("nodes/node_ordered_list.py", "            current_num = self.attrs.order\n        else:\n            current_num = 1\n\n        for item in self.content:\n", "            start = self.attrs.order\n        else:\n            start = 1\n\n        for current_num, item in enumerate(self.content, start):\n"),
        ("nodes/node_ordered_list.py", "                current_num += 1\n\n", "\n")]),
    dict(id="F34-cell-comprehension", props=["C18"], edits=[
        ("nodes/node_table_cell.py", CELL, '''        md = content_to_markdown(content=self.content, ignore_error=ignore_error)
        return "<br>".join(_keep_indent(line) for line in md.replace("|", "\\\\|").split("\\n"))
'''),
        ("nodes/node_table_cell.py", '''@dataclasses.dataclass(frozen=True)
class NodeTableCell(''', '''def _keep_indent(line):
    stripped = line.lstrip(" ")
    return "&nbsp;" * (len(line) - len(stripped)) + stripped


@dataclasses.dataclass(frozen=True)
class NodeTableCell(''')]),
    dict(id="F35-cell-shared-helper", props=["C18", "C19", "C07", "C11"], edits=[
        ("nodes/node_table_cell.py", CELL, '''        return cell_to_markdown(self.content, ignore_error)
'''), ("nodes/node_table_header.py", CELL, '''        return cell_to_markdown(self.content, ignore_error)
'''),
        ("nodes/node_table_cell.py", "    content_to_markdown,\n", "    content_to_markdown,\n    cell_to_markdown,\n") if False else ("nodes/node_table_cell.py", "from ..markdown_helpers import content_to_markdown", "from ..markdown_helpers import cell_to_markdown"),
        ("nodes/node_table_header.py", "from ..markdown_helpers import content_to_markdown", "from ..markdown_helpers import cell_to_markdown"),
        (H, "def add_style_to_markdown(", '''def cell_to_markdown(content, ignore_error):
    md = content_to_markdown(content=content, ignore_error=ignore_error)
    out = []
    for line in md.split("\\n"):
        n = len(line) - len(line.lstrip(" "))
        out.append("&nbsp;" * n + line[n:].replace("|", "\\\\|"))
    return "<br>".join(out)


def add_style_to_markdown(''')]),
    dict(id="F36-row-comprehension", props=["C19", "C11", "C12"], edits=[("nodes/node_table_row.py", '''        cells = []
        for cell in self.content:
            md = cell.to_markdown(ignore_error=ignore_error)
            cells.append(md)
''', '''        cells = [cell.to_markdown(ignore_error=ignore_error) for cell in self.content]
''')]),
    dict(id="F37-table-flag", props=["C19", "C11", "C12"], edits=[("nodes/node_table.py", '''                lines.append(md)
                if (
                    len(lines) == 1
                    and row.content
                    and row.content[0].is_type_of(TypeEnum.tableHeader)
                ):
                    lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
''', '''                first = not lines
                lines.append(md)
                cells = row.content
                if first and len(cells) > 0 and cells[0].is_type_of(TypeEnum.tableHeader):
                    rule = ["---" for _ in cells]
                    lines.append("| " + " | ".join(rule) + " |")
''')]),
    dict(id="F38-task-guard", props=["C17", "C11", "C12"], edits=[("nodes/node_task_list.py", '''                content_parts = []
                for node in item.content if item.content is not OPT else []:
                    try:
                        md = node.to_markdown(ignore_error=ignore_error)
                        content_parts.append(md)
                    except Exception as e:
                        if ignore_error:
                            pass
                        else:
                            raise e

                # Join content parts (they should be on the same line)
                # Use rstrip() on the final result to remove trailing whitespace
                item_content = "".join(content_parts).rstrip()
''', '''                item_content = item.to_markdown(ignore_error=ignore_error).rstrip()
''')]),
    dict(id="F39-task-ternary", props=["C17"], edits=[("nodes/node_task_list.py", '''                checkbox = "[x]" if item.attrs.state == "DONE" else "[ ]"

                # Format the line with checkbox
                line = f"{indent}- {checkbox} {item_content}"
                lines.append(line)
''', '''                mark = {"DONE": "x"}.get(item.attrs.state, " ")
                lines.append("{}- [{}] {}".format(indent, mark, item_content))
''')]),
    dict(id="F40-code-lang", props=["C22"], edits=[("nodes/node_code_block.py", '''        lang = ""
        if self.attrs is not OPT:
            if isinstance(self.attrs.language, str):
                lang = ATLASSIAN_LANG_TO_MARKDOWN_LANG_MAPPING.get(
                    self.attrs.language,
                    self.attrs.language,
                )
        if lang == "none":
            lang = ""
        return f"```{lang}\\n{code}\\n```"''', '''        language = OPT if self.attrs is OPT else self.attrs.language
        if not isinstance(language, str) or language == "none":
            language = ""
        return "\\n".join(["```" + language, code, "```"])''')]),
    dict(id="F41-date", props=["C23"], edits=[("nodes/node_date.py", '''        sec = int(self.attrs.timestamp) / 1000
        return str(datetime.fromtimestamp(sec, tz=timezone.utc).date())''', '''        millis = int(self.attrs.timestamp)
        moment = datetime.fromtimestamp(millis / 1000, timezone.utc)
        return moment.date().isoformat()''')]),
    dict(id="F42-media", props=["C24", "C09", "C07"], edits=[("nodes/node_media.py", '''        # For external media, return as markdown image/link
        if self.attrs.is_external_type() and isinstance(self.attrs.url, str):
            alt = self.attrs.alt if isinstance(self.attrs.alt, str) else "media"
            md = f"![{alt}]({self.attrs.url})"
            return add_style_to_markdown(md, self)
        # For internal media, return placeholder with id
        elif self.attrs.is_file_type():
            alt = self.attrs.alt if isinstance(self.attrs.alt, str) else "media"
            md = f"![{alt}](media:{self.attrs.id})"
            return add_style_to_markdown(md, self)
        elif self.attrs.is_link_type():
            return "[media]"  # TODO: implement link type markdown
        else:
            raise TypeError("Invalid media node attributes")''', '''        a = self.attrs
        if a.type == "link":
            return "[media]"
        if a.type == "file":
            target = "media:" + a.id
        elif a.type == "external" and isinstance(a.url, str):
            target = a.url
        else:
            raise TypeError("Invalid media node attributes")
        alt = "media" if not isinstance(a.alt, str) else a.alt
        return add_style_to_markdown("![%s](%s)" % (alt, target), self)''')]),
    dict(id="F43-panel-steps", props=["C20", "C11", "C12"], edits=[("nodes/node_panel.py", '''        return (
            textwrap.indent(
                strip_double_empty_line(
                    "\\n".join(
                        [
                            f"**{self.attrs.panelType.upper()}**",
                            "",
                            doc_content_to_markdown(
                                content=self.content,
                                ignore_error=ignore_error,
                            ),
                        ]
                    )
                ),
                prefix="> ",
                predicate=lambda line: True,
            )
            + "\\n"
        )''', '''        body = doc_content_to_markdown(content=self.content, ignore_error=ignore_error)
        title = "**" + self.attrs.panelType.upper() + "**"
        text = strip_double_empty_line(title + "\\n\\n" + body)
        quoted = textwrap.indent(text, "> ", lambda _: True)
        return f"{quoted}\\n"''')]),
    dict(id="F44-decision", props=["C21", "C11"], edits=[("nodes/node_decision_item.py", '''        for line in raw_lines:
            line = line.rstrip()
            is_empty = not line

            if is_empty:
                # Skip empty lines after only the first content line
                # (skip leading blanks after title)
                # Also skip consecutive empty lines
                if line_count <= 1 or prev_was_empty:
                    continue
                prefixed_lines.append(">")
                prev_was_empty = True
            else:
                prefixed_lines.append(f"> {line}")
                line_count += 1
                prev_was_empty = False
''', '''        for raw in raw_lines:
            line = raw.rstrip()
            if line:
                prefixed_lines.append("> " + line)
                line_count = line_count + 1
                prev_was_empty = False
            elif line_count > 1 and not prev_was_empty:
                prefixed_lines.append(">")
                prev_was_empty = True
''')]),
    dict(id="F45-heading", props=["C10"], edits=[("nodes/node_heading.py", '''        md = (
            "\\n\\n"
            + "{} {}".format(
                "#" * self.attrs.level,
                content_to_markdown(content=self.content, ignore_error=ignore_error),
            )
            + "\\n\\n"
        )
        return md''', '''        text = content_to_markdown(self.content, ignore_error=ignore_error)
        return f"\\n\\n{'#' * self.attrs.level} {text}\\n\\n"''')]),
    dict(id="F46-marks", props=["C08"], edits=[
        ("marks/mark_strong.py", '''        if text.strip():
            return f"**{text}**"
        else:
            return text''', '''        if not text.strip():
            return text
        return "**" + text + "**"'''),
        ("marks/mark_link.py", '''        if isinstance(self.attrs.title, str):
            title = self.attrs.title
        else:
            title = text
        return f"[{title}]({self.attrs.href})"''', '''        title = self.attrs.title
        label = title if isinstance(title, str) else text
        return "[{}]({})".format(label, self.attrs.href)'''),
        ("marks/mark_code.py", '''        if text.strip():
            return f"`` {text} ``"
        else:
            return text''', '''        return text if text.isspace() or not text else " ".join(["``", text, "``"])''')]),
    dict(id="F47-leaves", props=["C23", "C24"], edits=[
        ("nodes/node_emoji.py", '''        if isinstance(self.attrs.text, str):
            return self.attrs.text
        elif isinstance(self.attrs.shortName, str):
            return self.attrs.shortName
        else:
            raise NotImplementedError''', '''        for candidate in (self.attrs.text, self.attrs.shortName):
            if isinstance(candidate, str):
                return candidate
        raise NotImplementedError'''),
        ("nodes/node_inline_card.py", '''        if isinstance(self.attrs.url, str):
            return f"[{self.attrs.url}]({self.attrs.url})"
        else:
            raise NotImplementedError''', '''        url = self.attrs.url
        if not isinstance(url, str):
            raise NotImplementedError
        return "[" + url + "](" + url + ")"''')]),
    dict(id="F48-deepcopy-values", props="parsing", edits=[(M, '''        dct = copy.deepcopy(dct)

        # Deserialize attrs''', '''        dct = {key: copy.deepcopy(value) for key, value in dct.items()}

        # Deserialize attrs''')]),
    dict(id="F55-filtered-kwargs", props="parsing", edits=[(M, FD, '''        return cls(**{k: v for k, v in dct.items() if k in cls.get_fields()})
''')]),
    dict(id="F56-loop-over-input", props="parsing", edits=[(M, FD, '''        _fields = cls.get_fields()
        kwargs = {}
        for key in dct:
            if key not in _fields:
                continue
            kwargs[key] = dct[key]
        return cls(**kwargs)
''')]),
    dict(id="F57-drop-unknown", props="parsing", edits=[(M, FD, '''        kwargs = dict(dct)
        for key in set(kwargs) - set(cls.get_fields()):
            del kwargs[key]
        return cls(**kwargs)
''')]),
    dict(id="F58-pop-unknown", props="parsing", edits=[(M, FD, '''        kwargs = dct.copy()
        _fields = cls.get_fields()
        for key in list(kwargs):
            if key not in _fields:
                kwargs.pop(key)
        return cls(**kwargs)
''')]),
    dict(id="F59-key-intersection", props="parsing", edits=[(M, FD, '''        return cls(**{name: dct[name] for name in cls.get_fields().keys() & dct.keys()})
''')]),
    dict(id="F49-ordered-helper", props=["C16", "C11", "C12"], edits=[
        ("nodes/node_ordered_list.py", '''                # Join the content lines
                item_content = "\\n".join(content_lines)

                # Format the first line with number
                first_content = item_content.split("\\n")[0]
                first_line = f"{indent}{current_num}. {first_content}"
                lines.append(first_line)

                # Add remaining lines
                remaining_lines = item_content.split("\\n")[1:]
                if remaining_lines:
                    lines.extend(remaining_lines)

                current_num += 1
''', '''                text = "\\n".join(content_lines).split("\\n")
                text[0] = "%s%d. %s" % (indent, current_num, text[0])
                lines += text
                current_num = current_num + 1
''')]),
    dict(id="F50-while-index", props=["C21", "C10"], edits=[
        ("nodes/node_decision_list.py", "        for item in self.content:\n", "        for i in range(len(self.content)):\n            item = self.content[i]\n")]),
    dict(id="F51-contextmanager", props=["C10", "C11", "C12", "C07"], edits=[
        (H, "import typing as T\n", "import contextlib\nimport typing as T\n"),
        (H, "def content_to_markdown(", '''@contextlib.contextmanager
def _tolerate(ignore_error):
    try:
        yield
    except Exception:
        if not ignore_error:
            raise


def content_to_markdown('''),
        (H, C2M, '''    if content is OPT:
        return ""
    lst = []
    for node in content:
        with _tolerate(ignore_error):
            lst.append(node.to_markdown(ignore_error=ignore_error))
    return concat.join(lst)
''')]),
    dict(id="F52-ctx-class", props=["C10", "C11", "C12", "C07"], edits=[
        (H, "def content_to_markdown(", '''class _Tolerate:
    def __init__(self, ignore_error):
        self.ignore_error = ignore_error

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, tb):
        return self.ignore_error and exc_type is not None and issubclass(exc_type, Exception)


def content_to_markdown('''),
        (H, C2M, '''    if content is OPT:
        return ""
    lst = []
    for node in content:
        with _Tolerate(ignore_error):
            lst.append(node.to_markdown(ignore_error=ignore_error))
    return concat.join(lst)
''')]),
    dict(id="F53-yield-blocks", props=["C21", "C11", "C12"], edits=[
        ("nodes/node_decision_list.py", '''        decision_blocks = []

        for item in self.content:
            if item.is_type_of(TypeEnum.decisionItem):
                try:
                    md = item.to_markdown(ignore_error=ignore_error)
                    decision_blocks.append(md)
                except Exception as e:
                    if ignore_error:
                        pass
                    else:
                        raise e

        # Join with blank lines between each decision
        return "\\n\\n".join(decision_blocks)
''', '''        return "\\n\\n".join(self._blocks(ignore_error))

    def _blocks(self, ignore_error):
        for item in self.content:
            if not item.is_type_of(TypeEnum.decisionItem):
                continue
            try:
                md = item.to_markdown(ignore_error=ignore_error)
            except Exception:
                if ignore_error:
                    continue
                raise
            yield md
''')]),
    dict(id="F54-type-set", props=["C13", "C14", "C20", "C11", "C12"], edits=[
        (H, DOC, '''    if content is OPT:
        return ""
    padded = {TypeEnum.bulletList.value, TypeEnum.orderedList.value, TypeEnum.codeBlock.value}
    lst = []
    for node in content:
        try:
            md = node.to_markdown(ignore_error=ignore_error)
        except Exception as e:
            if ignore_error:
                continue
            raise e
        lst.append("\\n" + md + "\\n" if node.type in padded else md)
    return strip_double_empty_line(concat.join(lst))
''')]),
    # -- C28 ------------------------------------------------------------------------
    dict(id="G01-setdefault", props=["C28"], edits=[
        ("gen_code.py", """    for api in all_apis["marks"]:
        if api.module_name not in marks_by_module:
            marks_by_module[api.module_name] = []
        marks_by_module[api.module_name].append(api)
""", """    for api in all_apis["marks"]:
        marks_by_module.setdefault(api.module_name, []).append(api)
""")]),
    dict(id="G02-group-helper", props=["C28"], edits=[
        ("gen_code.py", """    # Group APIs by module for cleaner output
    marks_by_module: dict[str, list[PublicAPI]] = {}
    for api in all_apis["marks"]:
        if api.module_name not in marks_by_module:
            marks_by_module[api.module_name] = []
        marks_by_module[api.module_name].append(api)

    nodes_by_module: dict[str, list[PublicAPI]] = {}
    for api in all_apis["nodes"]:
        if api.module_name not in nodes_by_module:
            nodes_by_module[api.module_name] = []
        nodes_by_module[api.module_name].append(api)
""", """    marks_by_module = _group_by_module(all_apis["marks"])
    nodes_by_module = _group_by_module(all_apis["nodes"])
"""), ("gen_code.py", """def generate_api_py() -> str:
""", """def _group_by_module(apis):
    groups = {}
    for api in apis:
        group = groups.get(api.module_name)
        if group is None:
            groups[api.module_name] = [api]
        else:
            group.append(api)
    return groups


def generate_api_py() -> str:
""")]),
    dict(id="G03-defaultdict", props=["C28"], edits=[
        ("gen_code.py", """    marks_by_module: dict[str, list[PublicAPI]] = {}
    for api in all_apis["marks"]:
        if api.module_name not in marks_by_module:
            marks_by_module[api.module_name] = []
        marks_by_module[api.module_name].append(api)
""", """    marks_by_module = collections.defaultdict(list)
    for api in all_apis["marks"]:
        marks_by_module[api.module_name].append(api)
"""), ("gen_code.py", "import dataclasses\n", "import collections\nimport dataclasses\n")]),
    dict(id="G04-scan-comprehension", props=["C28"], edits=[
        ("gen_code.py", """    # Scan marks directory
    marks_dir = path_enum.dir_package / "marks"
    for module_path in sorted(marks_dir.glob("mark_*.py")):
        apis = scan_module_for_public_apis(module_path, base_classes)
        result["marks"].extend(apis)
""", """    # Scan marks directory
    marks_dir = path_enum.dir_package.joinpath("marks")
    result["marks"] = [
        api
        for module_path in sorted(marks_dir.glob("*.py"), key=lambda p: p.name)
        if module_path.name.startswith("mark_")
        for api in scan_module_for_public_apis(module_path, base_classes)
    ]
""")]),
    dict(id="G05-scan-loop-helper", props=["C28"], edits=[
        ("gen_code.py", """    result = {
        "marks": [],
        "nodes": [],
    }

    # Scan marks directory
    marks_dir = path_enum.dir_package / "marks"
    for module_path in sorted(marks_dir.glob("mark_*.py")):
        apis = scan_module_for_public_apis(module_path, base_classes)
        result["marks"].extend(apis)

    # Scan nodes directory
    nodes_dir = path_enum.dir_package / "nodes"
    for module_path in sorted(nodes_dir.glob("node_*.py")):
        apis = scan_module_for_public_apis(module_path, base_classes)
        result["nodes"].extend(apis)

    return result
""", """    result = {}
    for kind in ("mark", "node"):
        found = result[kind + "s"] = []
        for module_path in sorted((path_enum.dir_package / (kind + "s")).glob(kind + "_*.py")):
            found += scan_module_for_public_apis(module_path, base_classes)
    return result
""")]),
    dict(id="G06-scan-rewritten", props=["C28"], edits=[
        ("gen_code.py", """    for name, obj in inspect.getmembers(module):
        # Skip private/protected members
        if name.startswith("_"):
            continue

        # Check if it's a class defined in this module
        if inspect.isclass(obj) and obj.__module__ == full_module_name:
            # Check if it inherits from any of the base classes
            if issubclass(obj, base_classes):
                is_attrs = name.endswith("Attrs")
                public_apis.append(
                    PublicAPI(
                        module_name=module_name,
                        class_name=name,
                        is_attrs=is_attrs,
                    )
                )

        # Check for type aliases (T_NODE_*, T_MARK_*)
        # Type aliases are typically typing constructs
        if name.startswith("T_NODE_") or name.startswith("T_MARK_"):
            public_apis.append(
                PublicAPI(
                    module_name=module_name,
                    class_name=name,
                    is_type_alias=True,
                )
            )
""", """    def is_element(obj):
        return isinstance(obj, type) and getattr(obj, "__module__", None) == module.__name__ and issubclass(obj, base_classes)

    members = [(name, obj) for name, obj in inspect.getmembers(module) if name[:1] != "_"]
    for name, obj in members:
        if is_element(obj):
            public_apis.append(PublicAPI(module_name, name, name.endswith("Attrs")))
        elif name.startswith(("T_NODE_", "T_MARK_")):
            public_apis.append(PublicAPI(module_name, name, is_type_alias=True))
""")]),
    dict(id="G07-main-write-text", props=["C28"], edits=[
        ("gen_code.py", """    with open(api_py_path, "w") as f:
        f.write(content)
""", """    api_py_path.write_text(content)
"""), ("gen_code.py", """    with open(template_path, "r") as f:
        template_content = f.read()

    template = Template(template_content)
""", """    template = Template(template_path.read_text())
""")]),
    dict(id="G08-template-values", props=["C28"], edits=[
        ("templates/api.py.jinja", """{% for module_name, apis in nodes_by_module.items() -%}
{% for api in apis -%}
from {{ api.relative_import_path }} import {{ api.class_name }}
{% endfor -%}
{% endfor -%}""", """{% for module_name, apis in nodes_by_module.items() %}
{%- for api in apis %}
from .nodes.{{ module_name }} import {{ api.class_name }}
{%- endfor %}
{%- endfor %}
""")]),
    dict(id="G09-flat-template", props=["C28"], edits=[
        ("templates/api.py.jinja", """{% for module_name, apis in nodes_by_module.items() -%}
{% for api in apis -%}
from {{ api.relative_import_path }} import {{ api.class_name }}
{% endfor -%}
{% endfor -%}""", """{% for api in nodes -%}
from {{ api.relative_import_path }} import {{ api.class_name }}
{% endfor -%}
"""), ("gen_code.py", """        nodes_by_module=nodes_by_module,
""", """        nodes=all_apis["nodes"],
"""), ("gen_code.py", """    nodes_by_module: dict[str, list[PublicAPI]] = {}
    for api in all_apis["nodes"]:
        if api.module_name not in nodes_by_module:
            nodes_by_module[api.module_name] = []
        nodes_by_module[api.module_name].append(api)

""", "")]),
    dict(id="G10-module-table", props=["C28"], edits=[
        ("gen_code.py", """    if module_path.parent.name == "marks":
        full_module_name = f"atlas_doc_parser.marks.{module_name}"
    elif module_path.parent.name == "nodes":
        full_module_name = f"atlas_doc_parser.nodes.{module_name}"
    else:
        return []
""", """    folder = module_path.parent.name
    if folder not in ("marks", "nodes"):
        return []
    full_module_name = ".".join(["atlas_doc_parser", folder, module_name])
""")]),
]
