import p_attrs
import p_browser
import p_cli
import p_codec
import p_conv
import p_cost
import p_doc
import p_index
import p_keys
import p_layout
import p_session
import p_text

CHECKS = {}
for m in (p_session, p_index, p_layout, p_codec, p_doc, p_text, p_keys, p_attrs, p_cli, p_conv, p_browser, p_cost):
    CHECKS.update(m.CHECKS)
