"""Hand-written variants of the document operations: (name, properties, behaviour is preserved, [(file, old, new)])."""
V = [
# ---------------------------------------------------------------- behaviour-preserving rewritings
('doc-xpath-split', 'C06 C09 C10 C18', True, [('pykeepass.py', '''        res = []
        for e in elements:
            if cast:
                if e.tag == 'Entry':
                    res.append(Entry(element=e, kp=self))
                elif e.tag == 'Group':
                    res.append(Group(element=e, kp=self))
                elif e.tag == 'Binary' and e.getparent().tag == 'Entry':
                    res.append(Attachment(element=e, kp=self))
                else:
                    raise Exception('Could not cast element {}'.format(e))
            else:
                res.append(e)

        # return first object in list or None
        if first:
            res = res[0] if res else None

        return res

    _xpath = xpath
''', '''        if cast:
            res = [self._cast(e) for e in elements]
        else:
            res = list(elements)

        # return first object in list or None
        if first:
            return res[0] if res else None
        return res

    def _cast(self, e):
        if e.tag == 'Entry':
            return Entry(element=e, kp=self)
        if e.tag == 'Group':
            return Group(element=e, kp=self)
        if e.tag == 'Binary' and e.getparent().tag == 'Entry':
            return Attachment(element=e, kp=self)
        raise Exception('Could not cast element {}'.format(e))

    _xpath = xpath
''')]),
('doc-xpath-firstonly', 'C06 C07 C09 C11 C15 C18 C19', True, [('pykeepass.py', '''        # return first object in list or None
        if first:
            res = res[0] if res else None

        return res

    _xpath = xpath
''', '''        # return first object in list or None
        if not first:
            return res
        if len(res) > 0:
            return res[0]
        return None

    _xpath = xpath
''')]),
('doc-set-string-replace', 'C06 C11', True, [('entry.py', '''        protected_str = None
        if protected is None:
            protected_field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
            if protected_field is not None:
                protected_str = protected_field.attrib.get("Protected")
        else:
            protected_str = str(protected)

        if protected_str is None:
            new_field = E.String(E.Key(key), E.Value(value))
        else:
            new_field = E.String(E.Key(key), E.Value(value, Protected=protected_str))

        if field is not None:
            self._element.remove(field)
        self._element.append(new_field)
''', '''        protected_str = self._protected_str(field, protected)
        attrs = {} if protected_str is None else {'Protected': protected_str}
        new_field = E.String(E.Key(key), E.Value(value, **attrs))

        if field is not None:
            self._element.remove(field)
        self._element.append(new_field)

    @staticmethod
    def _protected_str(field, protected):
        if protected is not None:
            return str(protected)
        if field is None:
            return None
        return field.find('Value').get("Protected")
''')]),
('doc-password-setter', 'C06', True, [('entry.py', '''        if self.password:
            return self._set_string_field('Password', value)
        else:
            return self._set_string_field('Password', value, True)
''', '''        self._set_string_field('Password', value, None if self.password else True)
''')]),
('doc-tags', 'C06', True, [('entry.py', '''        val = self._get_subelement_text('Tags')
        return val.replace(',', ';').split(';') if val else []
''', '''        val = self._get_subelement_text('Tags')
        if not val:
            return []
        return val.replace(',', ';').split(';')
'''), ('entry.py', '''        v = sep.join(value if isinstance(value, list) else [value])
        return self._set_subelement_text('Tags', v)
''', '''        if isinstance(value, list):
            v = sep.join(value)
        else:
            v = value
        return self._set_subelement_text('Tags', v)
''')]),
('doc-autotype-helper', 'C06', True, [('entry.py', '''        sequence = self._element.find('AutoType/DefaultSequence')
        if sequence is None or sequence.text == '':
            return None
        return sequence.text
''', '''        return self._autotype_text('AutoType/DefaultSequence')

    def _autotype_text(self, path):
        node = self._element.find(path)
        return node.text or None if node is not None else None
'''), ('entry.py', '''        sequence = self._element.find('AutoType/Association/Window')
        if sequence is None or sequence.text == '':
            return None
        return sequence.text
''', '''        return self._autotype_text('AutoType/Association/Window')
''')]),
('doc-subelement-inplace', 'C06 C16', True, [('baseelement.py', '''        new = getattr(E, tag)(value)
        v = self._element.find(tag)
        if v is not None:
            self._element.remove(v)
        self._element.append(new)
''', '''        old = self._element.find(tag)
        new = E(tag, value)
        if old is not None:
            self._element.remove(old)
        self._element.append(new)
''')]),
('doc-get-string-loop', 'C06 C11 C18 C19', True, [('entry.py', '''        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), history=True, first=True)
        if field is not None:
            return field.text
''', '''        field = self._xpath(f'String/Key[text()="{key}"]/../Value', first=True)
        return None if field is None else field.text
''')]),
('doc-string-keys', 'C06', True, [('entry.py', '''        results = [x.find('Key').text for x in self._element.findall('String')]
        if exclude_reserved:
            return [x for x in results if x not in reserved_keys]
        else:
            return results
''', '''        results = []
        for string in self._element.findall('String'):
            key = string.find('Key').text
            if exclude_reserved and key in reserved_keys:
                continue
            results.append(key)
        return results
''')]),
('doc-custom-props', 'C06', True, [('entry.py', '''        keys = self._get_string_field_keys(exclude_reserved=True)
        props = {}
        for k in keys:
            props[k] = self._get_string_field(k)
        return props
''', '''        return {
            key: self._get_string_field(key)
            for key in self._get_string_field_keys(exclude_reserved=True)
        }
''')]),
('doc-protected-return', 'C06', True, [('entry.py', '''        if field is not None:
            return field.attrib.get("Protected", "False") == "True"
        return False
''', '''        return field is not None and field.attrib.get("Protected") == "True"
''')]),
('doc-delete-custom', 'C06', True, [('entry.py', '''        prop = self._xpath('String/Key[text()="{}"]/..'.format(key), first=True)
        if prop is None:
            raise AttributeError('Could not find property element')
        self._element.remove(prop)
''', '''        prop = self._xpath('String[Key[text()="{}"]]'.format(key), first=True)
        if prop is None:
            raise AttributeError('Could not find property element')
        prop.getparent().remove(prop)
''')]),
('doc-save-history', 'C11', True, [('entry.py', '''        archive = deepcopy(self._element)
        hist = archive.find('History')
        if hist is not None:
            archive.remove(hist)
            self._element.find('History').append(archive)
        else:
            history = Element('History')
            history.append(archive)
            self._element.append(history)
''', '''        archive = deepcopy(self._element)
        nested = archive.find('History')
        if nested is not None:
            archive.remove(nested)
        history = self._element.find('History')
        if history is None:
            history = Element('History')
            self._element.append(history)
        history.append(archive)
''')]),
('doc-save-history-sub', 'C11', True, [('entry.py', '''            history = Element('History')
            history.append(archive)
            self._element.append(history)
''', '''            history = E.History(archive)
            self._element.append(history)
''')]),
('doc-history-list', 'C11', True, [('entry.py', '''        if self._element.find('History') is not None:
            return [HistoryEntry(element=x, kp=self._kp) for x in self._element.find('History').findall('Entry')]
        else:
            return []
''', '''        return [
            HistoryEntry(element=x, kp=self._kp)
            for x in self._element.findall('History/Entry')
        ]
''')]),
('doc-delete-history', 'C11', True, [('entry.py', '''        if all:
            history = self._element.find('History')
            if history is not None:
                self._element.remove(history)
        else:
            self._element.find('History').remove(history_entry._element)
''', '''        history = self._element.find('History')
        if not all:
            history.remove(history_entry._element)
            return
        if history is not None:
            self._element.remove(history)
''')]),
('doc-reindex', 'C07', True, [('entry.py', '''        group = self.group._element
        first_index = self.group._first_entry
        group.remove(self._element)
        group.insert(new_index+first_index, self._element)
''', '''        group = self.group
        target = group._first_entry + new_index
        parent = self._element.getparent()
        parent.remove(self._element)
        parent.insert(target, self._element)
''')]),
('doc-first-entry', 'C07', True, [('group.py', '''        children = self._element.getchildren()
        first_element = next(e for e in children if e.tag == "Entry")
        return children.index(first_element)
''', '''        children = list(self._element)
        return children.index([e for e in children if e.tag == "Entry"][0])
''')]),
('doc-append', 'C07 C08 C19', True, [('group.py', '''        if isinstance(entries, list):
            for e in entries:
                self._element.append(e._element)
        else:
            self._element.append(entries._element)
''', '''        if not isinstance(entries, list):
            entries = [entries]
        for entry in entries:
            self._element.append(entry._element)
''')]),
('doc-empty-group', 'C07', True, [('pykeepass.py', '''        while len(group.subgroups):
            self.delete_group(group.subgroups[0])
        while len(group.entries):
            self.delete_entry(group.entries[0])
''', '''        for subgroup in group.subgroups:
            self.delete_group(subgroup)
        for entry in group.entries:
            self.delete_entry(entry)
''')]),
('doc-empty-group2', 'C07', True, [('pykeepass.py', '''        while len(group.subgroups):
            self.delete_group(group.subgroups[0])
        while len(group.entries):
            self.delete_entry(group.entries[0])
''', '''        for child in group.subgroups + group.entries:
            child.delete()
''')]),
('doc-empty-group3', 'C07', True, [('pykeepass.py', '''        while len(group.subgroups):
            self.delete_group(group.subgroups[0])
        while len(group.entries):
            self.delete_entry(group.entries[0])
''', '''        while group.entries:
            self.delete_entry(group.entries[-1])
        while group.subgroups:
            self.delete_group(group.subgroups[-1])
''')]),
('doc-delete-inline', 'C07 C08', True, [('pykeepass.py', '''    def delete_group(self, group):
        group.delete()

    def move_group(self, group, destination_group):
        """Move a group"""
        destination_group.append(group)
''', '''    def delete_group(self, group):
        element = group._element
        element.getparent().remove(element)

    def move_group(self, group, destination_group):
        """Move a group"""
        destination_group._element.append(group._element)
''')]),
('doc-trash-helper', 'C08', True, [('pykeepass.py', '''        if not self._can_be_moved_to_recyclebin(group):
            raise UnableToSendToRecycleBin
        recyclebin_group = self._create_or_get_recyclebin_group()
        self.move_group( group, recyclebin_group)
''', '''        self._trash(group)

    def _trash(self, item):
        if not self._can_be_moved_to_recyclebin(item):
            raise UnableToSendToRecycleBin
        self._create_or_get_recyclebin_group().append(item)
'''), ('pykeepass.py', '''        if not self._can_be_moved_to_recyclebin(entry):
            raise UnableToSendToRecycleBin
        recyclebin_group = self._create_or_get_recyclebin_group()
        self.move_entry( entry, recyclebin_group)
''', '''        self._trash(entry)
''')]),
('doc-can-be-moved', 'C08', True, [('pykeepass.py', '''        if entry_or_group == self.root_group:
            return False
        recyclebin_group = self.recyclebin_group
        if recyclebin_group is None:
            return True
        uuid_str = base64.b64encode( entry_or_group.uuid.bytes).decode('utf-8')
        elem = self._xpath('./UUID[text()="{}"]/..'.format(uuid_str), tree=recyclebin_group._element, first=True, cast=False)
        return elem is None
''', '''        recyclebin_group = self.recyclebin_group
        if entry_or_group == self.root_group:
            return False
        return recyclebin_group is None or recyclebin_group.uuid != entry_or_group.uuid
''')]),
('doc-recycle-create', 'C08', True, [('pykeepass.py', '''        existing_group = self.recyclebin_group
        if existing_group is not None:
            return existing_group
        kwargs.setdefault('group_name', 'Recycle Bin')
        group = self.add_group( self.root_group, **kwargs)
        elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)
        elem.text = base64.b64encode(group.uuid.bytes).decode('utf-8')
        return group
''', '''        group = self.recyclebin_group
        if group is None:
            name = kwargs.pop('group_name', 'Recycle Bin')
            group = self.add_group(self.root_group, name, **kwargs)
            elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)
            elem.text = group._get_subelement_text('UUID')
        return group
''')]),
('doc-find-fstring', 'C09', True, [('pykeepass.py', '''            if 'string' in kwargs:
                for key, value in kwargs['string'].items():
                    xp += keys_xp[regex]['string'].format(key, value, flags=flags)

                kwargs.pop('string')
''', '''            strings = kwargs.pop('string', {})
            for key in strings:
                xp += keys_xp[regex]['string'].format(key, strings[key], flags=flags)
''')]),
('doc-find-join', 'C09', True, [('pykeepass.py', '''            for key, value in kwargs.items():
                if key not in keys_xp[regex]:
                    raise TypeError('Invalid keyword argument "{}"'.format(key))
                if value is not None:
                    xp += keys_xp[regex][key].format(value, flags=flags)
''', '''            xpaths = keys_xp[regex]
            for key in kwargs:
                if key not in xpaths:
                    raise TypeError('Invalid keyword argument "{}"'.format(key))
            xp += ''.join(
                xpaths[key].format(value, flags=flags)
                for key, value in kwargs.items() if value is not None
            )
''')]),
('doc-find-path', 'C18', True, [('pykeepass.py', '''            group_path = path[:-1]
            element = path[-1] if len(path) > 0 else ''
            # build xpath from group_path and element
            for group in group_path:
                xp += path_xp[regex]['group'].format(group, flags=flags)
            if 'Entry' in prefix:
                xp += path_xp[regex]['entry'].format(element, flags=flags)
            elif element and 'Group' in prefix:
                xp += path_xp[regex]['group'].format(element, flags=flags)
''', '''            *group_path, element = path if len(path) > 0 else ['']
            # build xpath from group_path and element
            for name in group_path:
                xp = xp + path_xp[regex]['group'].format(name, flags=flags)
            if 'Entry' in prefix:
                xp += path_xp[regex]['entry'].format(element, flags=flags)
            elif 'Group' in prefix and element:
                xp += path_xp[regex]['group'].format(element, flags=flags)
''')]),
('doc-group-lists', 'C07 C09', True, [('group.py', '''        return [Entry(element=x, kp=self._kp) for x in self._element.findall('Entry')]
''', '''        return [Entry(element=x, kp=self._kp) for x in self._element.iterchildren('Entry')]
'''), ('group.py', '''        return [Group(element=x, kp=self._kp) for x in self._element.findall('Group')]
''', '''        groups = []
        for x in self._element.findall('Group'):
            groups.append(Group(element=x, kp=self._kp))
        return groups
''')]),
('doc-binaries', 'C10', True, [('pykeepass.py', '''                if elem.text is not None:
                    if elem.get('Compressed') == 'True':
                        data = zlib.decompress(
                            base64.b64decode(elem.text),
                            zlib.MAX_WBITS | 32
                        )
                    else:
                        data = base64.b64decode(elem.text)
                else:
                    data = b''
                binaries.insert(int(elem.attrib['ID']), data)
''', '''                data = b''
                if elem.text is not None:
                    data = base64.b64decode(elem.text)
                    if elem.get('Compressed') == 'True':
                        data = zlib.decompress(data, zlib.MAX_WBITS | 32)
                binaries.insert(int(elem.get('ID')), data)
''')]),
('doc-binaries-helper', 'C10', True, [('pykeepass.py', '''                if elem.text is not None:
                    if elem.get('Compressed') == 'True':
                        data = zlib.decompress(
                            base64.b64decode(elem.text),
                            zlib.MAX_WBITS | 32
                        )
                    else:
                        data = base64.b64decode(elem.text)
                else:
                    data = b''
                binaries.insert(int(elem.attrib['ID']), data)

        return binaries
''', '''                binaries.insert(int(elem.attrib['ID']), self._binary_data(elem))

        return binaries

    @staticmethod
    def _binary_data(elem):
        if elem.text is None:
            return b''
        raw = base64.b64decode(elem.text)
        if elem.get('Compressed') != 'True':
            return raw
        return zlib.decompress(raw, zlib.MAX_WBITS | 32)
''')]),
('doc-delete-binary', 'C10', True, [('pykeepass.py', '''        binaries_gt = self._xpath(
            '//Binary/Value[@Ref > "{}"]/..'.format(id),
            cast=True
        )
        for reference in binaries_gt:
            reference.id = reference.id - 1
''', '''        for reference in self._xpath('//Binary[Value/@Ref > {}]'.format(id), cast=True):
            reference.id -= 1
''')]),
('doc-delete-binary2', 'C10', True, [('pykeepass.py', '''        try:
            if id < 0:
                raise IndexError
            if self.version >= (4, 0):
                # remove binary element from inner header
                self.payload.inner_header.binary.pop(id)
            else:
                # remove binary element from XML
                binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
                binaries.remove(binaries.getchildren()[id])
                # keep the ID attributes in step with the decremented references
                for n, elem in enumerate(binaries.getchildren()):
                    elem.attrib['ID'] = str(n)
        except IndexError:
            raise BinaryError('No such binary with id {}'.format(id))
''', '''        if id < 0 or id >= len(self.binaries):
            raise BinaryError('No such binary with id {}'.format(id))
        if self.version >= (4, 0):
            # remove binary element from inner header
            del self.payload.inner_header.binary[id]
        else:
            # remove binary element from XML
            binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
            binaries.remove(binaries[id])
            # keep the ID attributes in step with the decremented references
            for n, elem in enumerate(binaries):
                elem.set('ID', str(n))
''')]),
('doc-attachment', 'C10', True, [('attachment.py', '''        try:
            return self._kp.binaries[self.id]
        except IndexError:
            raise BinaryError('No such binary with id {}'.format(self.id))
''', '''        binaries = self._kp.binaries
        ref = self.id
        try:
            data = binaries[ref]
        except IndexError as error:
            raise BinaryError('No such binary with id {}'.format(ref)) from error
        return data
''')]),
('doc-encode-time', 'C12 C15', True, [('pykeepass.py', '''        time = datetime.fromisoformat(text.replace('Z','+00:00'))
        if time.tzinfo is None:
            return time.replace(tzinfo=timezone.utc)
        return time.astimezone(timezone.utc)
''', '''        time = datetime.fromisoformat(text.replace('Z', '+00:00'))
        if time.tzinfo is not None:
            return time.astimezone(timezone.utc)
        return time.replace(tzinfo=timezone.utc)
''')]),
('doc-times-helper', 'C12', True, [('baseelement.py', '''        times = self._element.find('Times')
        if times is not None:
            prop = times.find(prop)
            if prop is not None and prop.text is not None:
                return self._kp._decode_time(prop.text)

    def _set_times_property(self, prop, value):
        times = self._element.find('Times')
        if times is not None:
            prop = times.find(prop)
            if prop is not None:
                prop.text = self._kp._encode_time(value)
''', '''        node = self._element.find('Times/' + prop)
        if node is None or node.text is None:
            return None
        return self._kp._decode_time(node.text)

    def _set_times_property(self, prop, value):
        node = self._element.find('Times/' + prop)
        if node is None:
            return
        node.text = self._kp._encode_time(value)
''')]),
('doc-expired', 'C12', True, [('baseelement.py', '''        if self.expires:
            return (
                datetime.now(timezone.utc) >
                self.expiry_time
            )

        return False
''', '''        return bool(self.expires) and self.expiry_time < datetime.now(timezone.utc)
''')]),
('doc-touch', 'C12', True, [('baseelement.py', '''        now = datetime.now(timezone.utc)
        self.atime = now
        if modify:
            self.mtime = now
''', '''        when = datetime.now(timezone.utc)
        if modify:
            self.mtime = when
        self.atime = when
''')]),
('doc-settings-helper', 'C15', True, [('pykeepass.py', '''        elem = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
        return elem.text
''', '''        return self._meta('DatabaseName').text

    def _meta(self, name):
        return self._xpath('/KeePassFile/Meta/' + name, first=True)
'''), ('pykeepass.py', '''        path = '/KeePassFile/Meta/MasterKeyChangeForce'
        item = self._xpath(path, first=True)
        item.text = str(days)
''', '''        self._meta('MasterKeyChangeForce').text = str(days)
''')]),
('doc-credchange', 'C15', True, [('pykeepass.py', '''        now_date = datetime.now(timezone.utc)
        return (now_date - change_date).days > self.credchange_required_days
''', '''        age = datetime.now(timezone.utc) - change_date
        limit = self.credchange_required_days
        return limit < age.days
''')]),
('doc-eq', 'C16', True, [('baseelement.py', '''            return self._identity == other._identity
''', '''            mine, theirs = self._identity, other._identity
            return len(mine) == len(theirs) and mine == theirs
''')]),
('doc-add-entry', 'C19', True, [('pykeepass.py', '''        entries = self.find_entries(
            title=title,
            username=username,
            first=True,
            group=destination_group,
            recursive=False
        )

        if entries and not force_creation:
            raise Exception(
                'An entry "{}" already exists in "{}"'.format(
                    title, destination_group
                )
            )
        else:
            logger.debug('Creating a new entry')
            entry = Entry(
                title=title,
                username=username,
                password=password,
                notes=notes,
                otp=otp,
                url=url,
                tags=tags,
                expires=True if expiry_time else False,
                expiry_time=expiry_time,
                icon=icon,
                kp=self
            )
            destination_group.append(entry)

        return entry
''', '''        if not force_creation:
            existing = self.find_entries(
                title=title,
                username=username,
                group=destination_group,
                recursive=False
            )
            if existing:
                raise Exception(
                    'An entry "{}" already exists in "{}"'.format(
                        title, destination_group
                    )
                )

        logger.debug('Creating a new entry')
        entry = Entry(
            title=title,
            username=username,
            password=password,
            url=url,
            notes=notes,
            otp=otp,
            tags=tags,
            icon=icon,
            expires=bool(expiry_time),
            expiry_time=expiry_time,
            kp=self
        )
        destination_group.append(entry)
        return entry
''')]),
('doc-entry-init', 'C19', True, [('entry.py', '''            if url:
                self._element.append(E.String(E.Key('URL'), E.Value(url)))
            if notes:
                self._element.append(E.String(E.Key('Notes'), E.Value(notes)))
''', '''            for key, value in (('URL', url), ('Notes', notes)):
                if value:
                    self._element.append(E.String(E.Key(key), E.Value(value)))
''')]),
('doc-add-group', 'C19 C07', True, [('pykeepass.py', '''        if icon:
            group = Group(name=group_name, icon=icon, notes=notes, kp=self)
        else:
            group = Group(name=group_name, notes=notes, kp=self)
        destination_group.append(group)

        return group
''', '''        new_group = Group(name=group_name, icon=icon or None, notes=notes, kp=self)
        destination_group.append(new_group)
        return new_group
''')]),
('doc-times-order', 'C19', True, [('baseelement.py', '''        current_time_str = self._kp._encode_time(datetime.now(timezone.utc))
        if expiry_time:
            expiry_time_str = self._kp._encode_time(expiry_time.astimezone(timezone.utc))
        else:
            expiry_time_str = current_time_str
''', '''        now = datetime.now(timezone.utc)
        current_time_str = self._kp._encode_time(now)
        expires_at = expiry_time.astimezone(timezone.utc) if expiry_time else now
        expiry_time_str = self._kp._encode_time(expires_at)
''')]),
]
V += [
# ---------------------------------------------------------------- wrong ones
('bad-doc-xpath-cache', 'C08', False, [('pykeepass.py', '''        existing_group = self.recyclebin_group
        if existing_group is not None:
            return existing_group
''', '''        existing_group = self.recyclebin_group
        if existing_group is not None and existing_group.entries:
            return existing_group
''')]),
('bad-doc-append-dup', 'C07', False, [('pykeepass.py', '''        destination_group.append(entry)

    def trash_entry''', '''        if entry.group == destination_group:
            return
        destination_group.append(entry)

    def trash_entry''')]),
('bad-doc-history-mtime', 'C11', False, [('entry.py', '''        archive = deepcopy(self._element)
        hist = archive.find('History')
''', '''        self.touch()
        archive = deepcopy(self._element)
        hist = archive.find('History')
''')]),
('bad-doc-history-first', 'C11', False, [('entry.py', '''            self._element.find('History').append(archive)
''', '''            self._element.find('History').insert(0, archive)
''')]),
('bad-doc-history-cap', 'C11', False, [('entry.py', '''            self._element.find('History').append(archive)
''', '''            history = self._element.find('History')
            history.append(archive)
            if len(history) > 10:
                history.remove(history[0])
''')]),
('bad-doc-history-order', 'C11', False, [('entry.py', '''            archive.remove(hist)
            self._element.find('History').append(archive)
''', '''            self._element.find('History').append(archive)
''')]),
('bad-doc-move-group-cycle', 'C07', False, [('pykeepass.py', '''        """Move a group"""
        destination_group.append(group)
''', '''        """Move a group"""
        destination_group._element.insert(0, group._element)
''')]),
('bad-doc-strip', 'C06', False, [('entry.py', '''        if field is not None:
            return field.text

''', '''        if field is not None and field.text is not None:
            return field.text.strip()

''')]),
('bad-doc-setfield-same', 'C06', False, [('entry.py', '''        field = self._xpath('String/Key[text()="{}"]/..'.format(key), history=True, first=True)

''', '''        field = self._xpath('.//String/Key[text()="{}"]/..'.format(key), history=True, first=True)

''')]),
('bad-doc-expired-ge', 'C12', False, [('baseelement.py', '''        if self.expires:
            return (''', '''        if self.expires and self.expiry_time != self.ctime:
            return (''')]),
('bad-doc-touch', 'C12', False, [('baseelement.py', '''        self.atime = now
        if modify:
            self.mtime = now
''', '''        if modify:
            self.mtime = now
        else:
            self.atime = now
''')]),
('bad-doc-add-binary-id', 'C10', False, [('pykeepass.py', '''        # return binary id
        return len(self.binaries) - 1
''', '''        # return binary id
        return self.binaries.index(data)
''')]),
('bad-doc-delete-binary', 'C10', False, [('pykeepass.py', '''            '//Binary/Value[@Ref > "{}"]/..'.format(id),
''', '''            '/KeePassFile/Root//Entry[not(ancestor::History)]/Binary/Value[@Ref > "{}"]/..'.format(id),
''')]),
('bad-doc-delete-binary-gt', 'C10', False, [('pykeepass.py', '''        for reference in binaries_gt:
            reference.id = reference.id - 1
''', '''        for reference in binaries_gt:
            reference.id = max(reference.id - 1, id)
            if reference.id == id:
                break
''')]),
('bad-doc-recycle-root', 'C08', False, [('pykeepass.py', '''        recyclebin_group = self.recyclebin_group
        if recyclebin_group is None:
            return True
        uuid_str''', '''        recyclebin_group = self.recyclebin_group
        if recyclebin_group is None or entry_or_group in recyclebin_group.subgroups:
            return True
        if entry_or_group.group == recyclebin_group:
            return False
        uuid_str''')]),
('bad-doc-eq-hist', 'C16', False, [('baseelement.py', '''            return self._identity == other._identity
''', '''            return self.uuid == other.uuid
''')]),
('bad-doc-dup-title', 'C19', False, [('pykeepass.py', '''            group=destination_group,
            recursive=False
        )

        if entries''', '''            group=destination_group,
            recursive=True
        )

        if entries''')]),
('bad-doc-expiry-naive', 'C19', False, [('baseelement.py', '''expiry_time.astimezone(timezone.utc))''', '''expiry_time.replace(tzinfo=timezone.utc))''')]),
('bad-doc-credchange', 'C15', False, [('pykeepass.py', '''        return (now_date - change_date).days > self.credchange_required_days
''', '''        return (now_date - change_date).days >= self.credchange_required_days
''')]),
('bad-doc-credchange-rec', 'C15', False, [('pykeepass.py', '''        return (now_date - change_date).days > self.credchange_recommended_days
''', '''        return (now_date - change_date).total_seconds() / 86400 > self.credchange_recommended_days
''')]),
('bad-doc-find-none', 'C09', False, [('pykeepass.py', '''                if value is not None:
                    xp += keys_xp''', '''                if value:
                    xp += keys_xp''')]),
('bad-doc-reindex', 'C07', False, [('entry.py', '''        first_index = self.group._first_entry
        group.remove(self._element)
        group.insert(new_index+first_index, self._element)
''', '''        group.remove(self._element)
        group.insert(new_index+self.group_first(group), self._element)

    @staticmethod
    def group_first(group):
        tags = [e.tag for e in group.getchildren()]
        return tags.index('Entry') if 'Entry' in tags else len(tags)
''')]),
]
V += [
('bad-doc-history-max', 'C11', False, [('entry.py', '''            self._element.find('History').append(archive)
''', '''            history = self._element.find('History')
            history.append(archive)
            limit = self._kp._xpath('/KeePassFile/Meta/HistoryMaxItems', first=True)
            if limit is not None and limit.text:
                while len(history) > int(limit.text) >= 0:
                    history.remove(history[0])
''')]),
('bad-doc-history-slice', 'C11', False, [('entry.py', '''            archive.remove(hist)
            self._element.find('History').append(archive)
''', '''            archive.remove(hist)
            history = self._element.find('History')
            for old in history.findall('Entry')[:-20]:
                history.remove(old)
            history.append(archive)
''')]),
('bad-doc-history-skip', 'C11', False, [('entry.py', '''            archive.remove(hist)
            self._element.find('History').append(archive)
''', '''            archive.remove(hist)
            latest = self.history[-1]
            if latest.mtime != self.mtime:
                self._element.find('History').append(archive)
''')]),
]
