from mkseed import seed
from demopre import PRE, P
seed("s25-same-value-other-type", "C14", [("src/aaf2/misc.py", """        if value_typedef is None:
            self.value = value
            return
""", """        if value_typedef is None:
            self.value = value
            return
        # nothing to do if it has this value
        if self['Value'].data and self.value == value:
            return
""")], "a tag gets the value it has with a type given explicitly that differs from the type it has", "the tag keeps the old type", PRE + '''
with aaf2.open(path, "w") as f:
    m = mob(f, seq(f, 1)); f.content.mobs.append(m)
    m.comments["a"] = 5
    t = m.comments.get("a")
    t.encode_value(5, "aafInt64")
    got = [t.value_typedef.type_name, t.value]
with aaf2.open(path) as f:
    t = list(f.content.mobs)[0].comments.get("a")
    got += [t.value_typedef.type_name, t.value]
check(got == ["aafInt64", 5] * 2, got)
''')
seed("s26-tag-order-copy", "C14", [("src/aaf2/misc.py", """        for item in self.p:
            if item['Name'].value == key:
                return item
        return default
""", """        if not hasattr(self, 'found'):
            self.found = {}
        # most often it is the one found last time
        item = self.found.get(key, None)
        if item is not None and item in self.p.value:
            return item
        for item in self.p:
            if item['Name'].value == key:
                self.found[key] = item
                return item
        return default
""")], "comments kept in a variable, a comment found through it is renamed, and its old name asked for or set again", "the renamed comment is found by its old name, and overwritten", PRE + '''
with aaf2.open(path, "w") as f:
    m = mob(f, seq(f, 1)); f.content.mobs.append(m)
    c = m.comments
    c["a"] = "old"
    c["a"] = "older"
    list(m["UserComments"].value)[0].name = "b"
    c["a"] = "new"
    got = sorted(m.comments.items())
check(got == [("a", "new"), ("b", "older")], got)
''')
