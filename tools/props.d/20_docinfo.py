prop(
    "C20", "Settings, properties and attached data are kept",
    "Settings, document variables, custom properties, dates, custom XML items and web extensions are written exactly as given, each once, in an order that does not depend on anything but the calls made. Custom XML items mean the same XML as the one given, and web extension properties are JSON strings of the values given. Reading the package back yields equal settings, custom properties and web page divisions.",
    ["inputs", "programs"],
    "arbitrary short strings, numbers over their range, and up to three calls in any order",
    "Values that need escaping in one more layer (JSON in XML, XML in XML) and names given twice are not in the tests' literals.",
    ["documents/settings.rs", "documents/doc_props/custom.rs", "documents/doc_props/core.rs", "documents/custom_item.rs", "documents/webextension.rs", "documents/web_settings.rs", "xml_json/mod.rs", "reader/settings.rs", "reader/custom_properties.rs", "reader/web_settings.rs", "reader/div.rs"],
    [("settings writer", "documents/settings.rs"), ("XML items", "xml_json/mod.rs"), ("web extensions", "documents/webextension.rs"), ("settings reader", "reader/settings.rs")],
    {
        "h_c20_single": "each of 6 settings alone, by either call; tab stops 0..9999999; variable names and values of 3 arbitrary printable characters",
        "h_c20_combined": "up to three settings in any order",
        "h_c20_custom": "up to three custom properties whose names may coincide; names of 3 and values of 0-3 arbitrary printable characters when alone",
        "h_c20_dates": "either date given or not; 3 arbitrary printable characters",
        "h_c20_item": "a custom XML item with attribute value or text of 3 arbitrary printable characters",
        "h_c20_items": "up to three items, the first with one of six shapes of namespace use",
        "h_c20_extensions": "up to two web extensions with up to two properties; names of 2 and values of 3 arbitrary printable characters",
        "h_c20_divs": "trees of up to three levels of divisions with every subset of margins",
    },
    assumptions=("blanks around the texts of custom XML items are layout",),
)
