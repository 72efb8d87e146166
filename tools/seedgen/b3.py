BUGS=[
dict(id="C26-shortcut",prop="C26",needs="a template with an optional parameter, a call that leaves it out and passes an undocumented one instead",breaks="an undocumented parameter is accepted when as many parameters are passed as the template has",
 edits=[("libnymea-remoteproxy/jsonrpc/jsontypes.cpp","    // Make sure there aren't any other parameters than the allowed ones\n","    // All template keys are known to be around, nothing else can be in a map of the same size\n    if (map.count() == templateMap.count())\n        return report(true, \"\");\n\n    // Make sure there aren't any other parameters than the allowed ones\n")],
 pre='#include "jsonrpc/jsontypes.h"\n',
 demo='''    JsonTypes::allTypes(); QVariantMap t; t.insert("a", "String"); t.insert("o:b", "String"); QVariantMap m; m.insert("a", "x"); CHECK(JsonTypes::validateMap(t, m).first);
    m.insert("b", "y"); CHECK(JsonTypes::validateMap(t, m).first); m.remove("b"); m.insert("z", "y"); CHECK(!JsonTypes::validateMap(t, m).first);'''),
]
