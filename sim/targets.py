UTIL = ["util/time_helper.cpp", "util/compiler.cpp", "@version"]
GEO = ["geometry/cache.cpp", "geometry/srs.cpp", "geometry/algorithm/reproject.cpp"]
IO = ["io/importer.cpp", "io/csv_importer.cpp", "io/file_exporter.cpp", "io/memory_mapped/utils.cpp"]
APP = ["app/settings.cpp", "app/options.cpp", "app/general.cpp"]
COMPARE = ["compare/comparator.cpp", "compare/comparator/compare_task.cpp", "compare/comparator/comparator_forwarder_data.cpp",
           "compare/comparator/comparator_forwarder_matches.cpp", "compare/comparator/comparator_forwarder_compares.cpp"]
MATCH = ["matching/defect.cpp", "matching/matcher/match_task.cpp", "io/track/track_exporter.cpp"]

TARGETS = [
    dict(name="coord", props=["S02"], scen=["s02"], lib=[]),
    dict(name="match", props=["S01", "S03", "S04", "S05", "S07", "S08", "S09"], scen=["match", "match_cart", "match_geo"],
         lib=UTIL + GEO + IO + APP + MATCH + ["app/match.cpp"]),
    dict(name="compare", props=["S06"], scen=["compare", "compare_cart", "compare_geo"], lib=UTIL + GEO + IO + APP + COMPARE + ["app/compare.cpp"]),
    dict(name="tracks", props=["I01"], scen=["tracks", "import_srs"], lib=UTIL + GEO + IO + APP + MATCH + ["app/match.cpp"]),
    dict(name="storage", props=["M01", "M02", "M03", "M04"], scen=["storage_tags", "storage_graph", "storage_csr", "storage_index"], lib=UTIL + GEO + ["io/memory_mapped/utils.cpp"]),
    dict(name="import", props=["N01", "N02", "N03", "N04", "N05"], scen=["import_n01", "import_n02", "import_n03", "import_n04", "import_n05", "import_srs"] + [f"import_c{i}" for i in range(6)], lib=UTIL + GEO + IO + APP),
]
