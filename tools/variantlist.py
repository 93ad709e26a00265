GP = """        p = self.parentgroup
        path = [self.name]
        while p is not None and not p.is_root_group:
            if p.name is not None:  # dont make the root group appear
                path.insert(0, p.name)
            p = p.parentgroup
        return path
"""
EP = GP.replace('self.name', 'self.title')
DR = """        references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}]+)})', value))
        if not references:
            return value
"""
DL = """        for ref, wanted_field, search_in, search_value in references:
            wanted_field = field_to_attribute[wanted_field]
            search_in = field_to_attribute[search_in]
            if search_in == 'uuid':
                search_value = uuid.UUID(search_value)
            ref_entry = self.find_entries(first=True, **{search_in: search_value})
            if ref_entry is None:
                return None
            replacement = getattr(ref_entry, wanted_field)
            if wanted_field == 'uuid':
                replacement = replacement.hex.upper()
            value = value.replace(ref, replacement or '')
        return self.deref(value)
"""
V = [
 ('deref-finditer', 'C14', True, [('pykeepass.py', DR, """        pattern = re.compile(r'\\{REF:([TUPANI])@([TUPANI]):([^}]+)\\}')
        references = list(pattern.finditer(value))
        if len(references) == 0:
            return value
"""), ('pykeepass.py', DL, DL.replace("for ref, wanted_field, search_in, search_value in references:", "for match in references:\n            ref = match.group(0)\n            wanted_field, search_in, search_value = match.groups()"))]),
 ('deref-sub', 'C14', True, [('pykeepass.py', DR, """        pattern = re.compile(r'{REF:([TUPANI])@([TUPANI]):([^}]+)}')
        if pattern.search(value) is None:
            return value
"""), ('pykeepass.py', DL, """        missing = []
        def resolve(match):
            wanted_field, search_in, search_value = match.groups()
            wanted_field = field_to_attribute[wanted_field]
            search_in = field_to_attribute[search_in]
            if search_in == 'uuid':
                search_value = uuid.UUID(search_value)
            ref_entry = self.find_entries(first=True, **{search_in: search_value})
            if ref_entry is None:
                missing.append(match)
                return ''
            replacement = getattr(ref_entry, wanted_field)
            if wanted_field == 'uuid':
                return replacement.hex.upper()
            return replacement or ''
        value = pattern.sub(resolve, value)
        if missing:
            return None
        return self.deref(value)
""")]),
 ('deref-helper', 'C14', True, [('pykeepass.py', DL, """        for ref, wanted_field, search_in, search_value in references:
            replacement = self._resolve(field_to_attribute, wanted_field, search_in, search_value)
            if replacement is None:
                return None
            value = value.replace(ref, replacement)
        return self.deref(value)

    def _resolve(self, names, wanted, by, what):
        attr = names[by]
        key = uuid.UUID(what) if attr == 'uuid' else what
        found = self.find_entries(first=True, **{attr: key})
        if found is None:
            return None
        result = getattr(found, names[wanted])
        if result is None:
            return ''
        return result.hex.upper() if names[wanted] == 'uuid' else result
""")]),
 ('deref-each-value', 'C14', True, [('pykeepass.py', DL, DL.replace("value = value.replace(ref, replacement or '')", "resolved = self.deref(replacement)\n            if resolved is None and replacement:\n                return None\n            value = value.replace(ref, resolved or '')").replace("return self.deref(value)", "return value"))]),
 ('deref-loop', 'C14', True, [('pykeepass.py', DR + "        field", "        field"), ('pykeepass.py', DL, "        while True:\n            references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}]+)})', value))\n            if not references:\n                return value\n" + '\n'.join('    ' + l for l in DL.rstrip('\n').split('\n')[:-1]) + '\n')]),
 ('bad-deref-norecurse', 'C14', False, [('pykeepass.py', "        return self.deref(value)\n\n\n", "        return value\n\n\n")]),
 ('bad-deref-first-only', 'C14', False, [('pykeepass.py', "search_value in references:", "search_value in list(references)[:2]:"), ('pykeepass.py', "        return self.deref(value)\n\n\n", "        return value\n\n\n")]),
 ('bad-deref-regex-at', 'C14', False, [('pykeepass.py', "([^}]+)})', value)", "([^}@]+)})', value)")]),
 ('bad-deref-history', 'C14', False, [('pykeepass.py', "self.find_entries(first=True, **{search_in", "self.find_entries(first=True, history=True, **{search_in")]),
 ('bad-deref-skip-missing', 'C14', False, [('pykeepass.py', "            if ref_entry is None:\n                return None\n            replacement", "            if ref_entry is None:\n                continue\n            replacement")]),
 ('path-append-reverse', 'C18', True, [('group.py', GP, """        path = [self.name]
        p = self.parentgroup
        while not p.is_root_group:
            path.append(p.name)
            p = p.parentgroup
        path.reverse()
        return path
"""), ('entry.py', EP, """        path = []
        p = self.parentgroup
        while p is not None and not p.is_root_group:
            path.append(p.name)
            p = p.parentgroup
        return path[::-1] + [self.title]
""")]),
 ('path-recursive', 'C18', True, [('group.py', GP, """        return self.parentgroup.path + [self.name]
"""), ('entry.py', EP, """        return self.parentgroup.path + [self.title]
""")]),
 ('path-prepend', 'C18', True, [('group.py', GP, """        result = [self.name]
        parent = self.parentgroup
        while parent is not None and not parent.is_root_group:
            name = parent.name
            if name is not None:
                result = [name] + result
            parent = parent.parentgroup
        return result
"""), ('entry.py', EP, """        names = []
        p = self.parentgroup
        while True:
            if p is None or p.is_root_group:
                break
            if p.name is not None:
                names.insert(0, p.name)
            p = p.parentgroup
        names.append(self.title)
        return names
""")]),
 ('path-group-delegates', 'C18', True, [('entry.py', EP, """        return self.parentgroup.path + [self.title]
""")]),
 ('path-iterancestors', 'C18', True, [('entry.py', EP, """        path = [self.title]
        for a in self._element.iterancestors('Group'):
            if a.getparent().tag == 'Root':
                break
            path.insert(0, a.findtext('Name'))
        return path
""")]),
 ('bad-path-dup-names', 'C18', False, [('entry.py', EP, EP.replace("if p.name is not None:", "if p.name is not None and p.name != path[0]:"))]),
 ('bad-path-skip-equal', 'C18', False, [('group.py', GP, GP.replace("if p.name is not None:", "if p.name is not None and p.name not in path:"))]),
 ('bad-path-limit', 'C18', False, [('group.py', GP, GP.replace("while p is not None and", "while p is not None and len(path) < 20 and"))]),
]
