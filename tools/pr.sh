# prove: functions contracted in a contracts file
fs=$(grep -ho "^func \(post\|spec\)_[A-Za-z_]*" /verif/contracts/$1 | sed 's/func ..*t_//; s/func spec_//; s/func post_//' | sort -u | sed -E 's/^(SymbolTableFrame|FrameMap|Function|Macro|PrimitiveFunction|Binding)_/(*\1)./')
GOVC_GEN=$GEN /tmp/govc post,pre $fs 2>/dev/null
GOVC_SECS=${S:-3} /tmp/govc try post $fs 2>&1 | cut -c1-400
