"""Reference behaviour of the JavaScript-facing handlers, in the model language."""

from equiv import rewriter
from terms import mk

SPEC = '''
def tag_is_valid(self, product):
    for id in keys(self.active):
        if id < length(self.handle.tags._0):
            if not (product.serialization_id in self.handle.tags._0[id].products_by_serialization_id):
                return False
        else:
            return any_()
    return True

def cat_is_valid(self, product):
    for k in keys(self.active):
        c = tupn(k, 0)
        o = tupn(k, 1)
        if c < length(self.handle.categories._0):
            if o < length(self.handle.categories._0[c].options):
                if not (product.serialization_id in self.handle.categories._0[c].options[o].products_by_serialization_id):
                    return False
            else:
                return any_()
        else:
            return any_()
    return True

def tag_toggle(self, tag):
    if tag.index >= length(tag.handle.tags._0):
        return any_()
    id = tag.handle.tags._0[tag.index].id
    if id in self.active:
        self.active = mdel(self.active, id)
        new = False
    else:
        self.active = mput(self.active, id, unit())
        new = True
    if id in self.tag_observers:
        for o in mget(self.tag_observers, id):
            event("observe", o, term("jsval", new))
    for o in self.general_observers:
        event("observe", o, term("jsval", new))
    return unit()

def cat_toggle(self, item):
    id = tup(item.cat_id, item.option_id)
    if id in self.active:
        self.active = mdel(self.active, id)
        new = False
    else:
        self.active = mput(self.active, id, unit())
        new = True
    if id in self.option_observers:
        for o in mget(self.option_observers, id):
            event("observe", o, term("jsval", new))
    for o in self.general_observers:
        event("observe", o, term("jsval", new))
    return unit()

def tag_status(self, tag):
    if tag.index >= length(tag.handle.tags._0):
        return any_()
    return tag.handle.tags._0[tag.index].id in self.active

def tag_status_pos(self, tag):
    return tag.index in self.active

def cat_status(self, item):
    return tup(item.cat_id, item.option_id) in self.active

def add_general(self, o):
    self.general_observers = vpush(self.general_observers, o)
    return unit()

def tag_add(self, tag, o):
    if tag.index >= length(tag.handle.tags._0):
        return any_()
    id = tag.handle.tags._0[tag.index].id
    if id in self.tag_observers:
        self.tag_observers = mput(self.tag_observers, id, vpush(mget(self.tag_observers, id), o))
    else:
        self.tag_observers = mput(self.tag_observers, id, [o])
    return unit()

def cat_add(self, item, o):
    id = tup(item.cat_id, item.option_id)
    if id in self.option_observers:
        self.option_observers = mput(self.option_observers, id, vpush(mget(self.option_observers, id), o))
    else:
        self.option_observers = mput(self.option_observers, id, [o])
    return unit()

def tag_remove(self, tag, o):
    if tag.index >= length(tag.handle.tags._0):
        return any_()
    id = tag.handle.tags._0[tag.index].id
    if id in self.tag_observers:
        v = mget(self.tag_observers, id)
        i = 0
        for x in v:
            if o == x:
                self.tag_observers = mput(self.tag_observers, id, term("swaprem", v, i))
                return unit()
            i = i + 1
    return unit()

def cat_remove(self, item, o):
    id = tup(item.cat_id, item.option_id)
    if id in self.option_observers:
        v = mget(self.option_observers, id)
        i = 0
        for x in v:
            if o == x:
                self.option_observers = mput(self.option_observers, id, term("swaprem", v, i))
                return unit()
            i = i + 1
    return unit()

def tag_handler_new(handle):
    return new("TagHandler", handle=handle, active=mnew(), general_observers=vec0(), tag_observers=mnew())

def cat_handler_new(handle):
    return new("CategoryHandler", handle=handle, active=mnew(), general_observers=vec0(), option_observers=mnew())

def tags_iter(self):
    return new("TagIter", handle=self.handle, index=0)

def cats_iter(self):
    return new("CategoryIter", handle=self.handle, index=0)

def next_tag(self):
    i = self.index
    if i < length(self.handle.tags._0):
        h = self.handle
        self.index = i + 1
        return Some(new("JSTag", handle=h, index=i))
    return Nope()

def next_cat(self):
    i = self.index
    if i < length(self.handle.categories._0):
        h = self.handle
        self.index = i + 1
        return Some(new("CategoryOptionIter", handle=h, index=0, category_index=i))
    return Nope()

def next_option(self):
    i = self.index
    c = self.category_index
    if c < length(self.handle.categories._0):
        if i < length(self.handle.categories._0[c].options):
            n = self.handle.categories._0[c].options[i].name
            self.index = i + 1
            return Some(new("ExportCategoryOption", name=n, cat_id=c, option_id=i))
    return Nope()

def cat_name(self):
    if self.category_index < length(self.handle.categories._0):
        return self.handle.categories._0[self.category_index].name
    return any_()

def option_name(self):
    return self.name

def jstag_name(self):
    if self.index < length(self.handle.tags._0):
        return self.handle.tags._0[self.index].name
    return any_()

def jstag_id(self):
    if self.index < length(self.handle.tags._0):
        return self.handle.tags._0[self.index].id
    return any_()

def jstag_new(handle, index):
    return new("JSTag", handle=handle, index=index)

def option_keys(self):
    return tup(self.cat_id, self.option_id)

def producer_new(container, to_export):
    return new("ProductProducer", container=container, to_export=to_export, index=0)

def next_product(self):
    i = self.index
    if i < length(self.to_export):
        id = self.to_export[i]
        c = self.container
        if id < length(c.products):
            self.index = i + 1
            return Some(new("JsProduct", container=c, serialization_id=id))
        return any_()
    return Nope()

def title(self):
    if self.serialization_id < length(self.container.products):
        return self.container.products[self.serialization_id].title
    return any_()

def description(self):
    if self.serialization_id < length(self.container.products):
        return self.container.products[self.serialization_id].description
    return any_()

def pid(self):
    if self.serialization_id < length(self.container.products):
        return self.container.products[self.serialization_id].id
    return any_()

def string_feature(self, key):
    if self.serialization_id >= length(self.container.products):
        return any_()
    s = self.container.products[self.serialization_id].serialization_id
    m = self.container.extra_features._0
    if key in m:
        f = mget(m, key)
        if is_(f, "String"):
            if s < length(var_(f, "String", 0)):
                return Some(var_(f, "String", 0)[s])
    return Nope()

def numeric_feature(self, key):
    if self.serialization_id >= length(self.container.products):
        return any_()
    s = self.container.products[self.serialization_id].serialization_id
    m = self.container.extra_features._0
    if key in m:
        f = mget(m, key)
        if is_(f, "Float"):
            if s < length(var_(f, "Float", 0)):
                return Some(term("widen", var_(f, "Float", 0)[s]))
        if is_(f, "Integer"):
            if s < length(var_(f, "Integer", 0)):
                return Some(term("tofloat64", var_(f, "Integer", 0)[s]))
    return Nope()
'''

V, M = "v", "m"
S = (V, "self")
MS = (M, "self")
TABLE = {
    "tag_is_valid": ("TagHandler::is_valid", [S, (V, "product")]),
    "cat_is_valid": ("CategoryHandler::is_valid", [S, (V, "product")]),
    "tag_toggle": ("TagHandler::toggle", [MS, (V, "tag")]),
    "cat_toggle": ("CategoryHandler::toggle", [MS, (V, "item")]),
    "tag_status": ("TagHandler::get_status", [S, (V, "tag")]),
    "cat_status": ("CategoryHandler::get_status", [S, (V, "item")]),
    "tag_general": ("TagHandler::add_general_observer", [MS, (V, "o")], "add_general"),
    "cat_general": ("CategoryHandler::add_general_observer", [MS, (V, "o")], "add_general"),
    "tag_add": ("TagHandler::add_tag_lister", [MS, (V, "tag"), (V, "o")]),
    "cat_add": ("CategoryHandler::add_option_lister", [MS, (V, "item"), (V, "o")]),
    "tag_remove": ("TagHandler::remove_tag_listener", [MS, (V, "tag"), (V, "o")]),
    "cat_remove": ("CategoryHandler::remove_option_listener", [MS, (V, "item"), (V, "o")]),
    "tag_handler_new": ("TagHandler::new", [(V, "handle")]),
    "cat_handler_new": ("CategoryHandler::new", [(V, "handle")]),
    "tags_iter": ("TagHandler::tags", [S]),
    "cats_iter": ("CategoryHandler::iter", [S]),
    "next_tag": ("TagIter::next_tag", [MS]),
    "next_cat": ("CategoryIter::next_item", [MS]),
    "next_option": ("CategoryOptionIter::next_item", [MS]),
    "cat_name": ("CategoryOptionIter::name", [S]),
    "option_name": ("ExportCategoryOption::get_name", [S]),
    "jstag_name": ("JSTag::get_name", [S]),
    "jstag_id": ("JSTag::get_id", [S]),
    "jstag_new": ("JSTag::new", [(V, "handle"), (V, "index")]),
    "option_keys": ("ExportCategoryOption::keys", [S]),
    "producer_new": ("ProductProducer::new", [(V, "container"), (V, "to_export")]),
    "next_product": ("ProductProducer::next_product", [MS]),
    "title": ("JsProduct::get_title", [S]),
    "description": ("JsProduct::get_description", [S]),
    "pid": ("JsProduct::get_id", [S]),
    "string_feature": ("JsProduct::string_feature", [S, (V, "key")]),
    "numeric_feature": ("JsProduct::numeric_feature", [S, (V, "key")]),
}


def tag_ids(t):
    """the id of the tag at position i is i (decided by C02)"""
    if t.op == "remv":
        return mk("swaprem", *t.args)      # the order of the remaining observers is not specified
    if t.op == "fld" and t.args[1] == "id" and t.args[0].op == "index":
        b = t.args[0].args[0]
        if b.op == "fld" and b.args[1] == "0" and b.args[0].op == "fld" and b.args[0].args[1] == "tags":
            return t.args[0].args[1]


HELPERS = ("cat_handler_new", "tag_handler_new", "jstag_new", "jstag_id", "option_keys", "producer_new")


def conform(R, rule, *names, **kw):
    for n in names:
        e = TABLE[n]
        if n in HELPERS and R.folded(rule, e[0]):
            continue
        kw.setdefault("norm", rewriter(tag_ids))
        R.conform(rule, R.fid(e[0]), SPEC, e[2] if len(e) > 2 else n, e[1], **kw)
