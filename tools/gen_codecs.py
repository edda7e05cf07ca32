#!/usr/bin/env python3
"""Writes contracts/common/pkg/fcrmessages/codecs.go (authoring aid; the output is committed)."""
import re,glob,os
src="/repo/common/pkg/fcrmessages"
out=[]
enc,dec={}, {}
types={}
for f in sorted(glob.glob(src+"/*.go")):
    if f.endswith("_test.go") or os.path.basename(f) in("fcrmessage.go","dump.go"): continue
    s=open(f).read()
    for m in re.finditer(r"^func (\w+)\(([^{]*?)\) (\([^{]*?\)|\S+) \{(.*?)^\}",s,re.M|re.S):
        a=" ".join(re.sub(r"\s*//[^\n]*","",m.group(2)).split()); r=" ".join(re.sub(r"\s*//[^\n]*","",m.group(3)).split())
        n=m.group(1)
        if n.startswith("Encode"):
            enc[n[6:]]=a
            t=re.search(r"CreateFCRMessage\((\w+)",m.group(4)); types[n[6:]]=t.group(1)
        if n.startswith("Decode"): dec[n[6:]]=(a,r)
print(len(enc),len(dec),set(enc)^set(dec))
def params(a):
    ps=[]
    for x in [y.strip() for y in a.split(",") if y.strip()]:
        w=x.split(" ",1)
        ps.append([w[0],w[1] if len(w)>1 else None])
    for i in range(len(ps)-2,-1,-1):
        if ps[i][1] is None: ps[i][1]=ps[i+1][1]
    return ps
imports=set()
for n in sorted(enc):
    ps=params(enc[n]); req=[]; eqs=[]; ds=[]
    rt=[x.strip() for x in dec[n][1].strip("()").split(",") if x.strip()]
    nret=len(rt)-1
    assert nret==len(ps),(n,rt,ps)
    for i,(p,t) in enumerate(ps):
        d=f"d{i}"; ds.append(d)
        if t in("*cid.ContentID","*nodeid.NodeID"):
            req.append(f"{p} != nil && len({p}.ToBytes()) == 32"); eqs.append(f"{d} != nil && gvBytesEq({d}.ToBytes(), {p}.ToBytes())")
        elif t=="nodeid.NodeID":
            req.append(f"len({p}.ToBytes()) == 32"); eqs.append(f"gvBytesEq({d}.ToBytes(), {p}.ToBytes())")
        elif t in("[]nodeid.NodeID","[]cid.ContentID"):
            req.append(f"gvForall(0, len({p}), func(i int) bool {{ return len({p}[i].ToBytes()) == 32 }})")
            eqs.append(f"len({d}) == len({p}) && gvForall(0, len({p}), func(i int) bool {{ return gvBytesEq({d}[i].ToBytes(), {p}[i].ToBytes()) }})")
        elif t in("[]string","[]bool","[]uint64","[]int64"):
            eqs.append(f"len({d}) == len({p}) && gvForall(0, len({p}), func(i int) bool {{ return {d}[i] == {p}[i] }})")
        elif t in("[][]string","[]FCRMessage","[]cidoffer.SubCIDOffer","[]cidoffer.CIDOffer"):
            if "Offer" in t: req.append(f"specOffersOK{'Sub' if 'Sub' in t else ''}({p})")
            eqs.append(f"len({d}) == len({p}) && gvSameJSON({d}, {p})")
        elif t=="*FCRMessage":
            req.append(f"{p} != nil"); eqs.append(f"{d} != nil && specSameMsg({d}, {p})")
        elif t=="*cidoffer.CIDOffer":
            req.append(f"{p} != nil && specOfferOK({p})"); eqs.append(f"{d} != nil && specSameOffer({d}, {p})")
        elif t=="*fcrmerkletree.FCRMerkleProof":
            req.append(f"{p} != nil && fcrmerkletree.SpecShort({p})"); eqs.append(f"{d} != nil && fcrmerkletree.SpecSameProof({d}, {p})")
        elif t=="*fcrcrypto.KeyPair":
            req.append(f"{p} != nil && specPrivateKey({p})"); eqs.append(f"{d} != nil && {d}.EncodePrivateKey() == {p}.EncodePrivateKey()")
        elif t=="*fcrcrypto.KeyVersion":
            req.append(f"{p} != nil"); eqs.append(f"{d} != nil && {d}.EncodeKeyVersion() == {p}.EncodeKeyVersion()")
        else:
            assert t in("string","int64","bool","uint64","int32"),(n,t)
            eqs.append(f"{d} == {p}")
        for im in("cid","nodeid","cidoffer","fcrcrypto","fcrmerkletree"):
            if re.search(r"\b"+im+r"\.",t): imports.add(im)
    sig=", ".join(f"{p} {t}" for p,t in ps)
    b=f"//gv:props C04\n//gv:inline common/pkg/fcrmessages.*\n//gv:nopanic C04.{n}-no-panic\nfunc contract_{n}({sig}) {{\n"
    if req: b+="\tgvRequires(func() bool { return "+" && ".join(req)+" })\n"
    b+=f"\tm, err := Encode{n}({', '.join(p for p,_ in ps)})\n"
    b+=f"\tgvEnsures(\"C04.{n}-encodes\", func() bool {{ return err == nil && m != nil && m.messageType == {types[n]} && m.protocolVersion == protocolVersion }})\n"
    if ps:
        b+=f"\t{', '.join(ds)}, err2 := Decode{n}(m)\n"
        if n=="ProviderPublishDHTOfferRequest": # the decoder additionally refuses group offers
            b+=f"\tgvEnsures(\"C04.{n}-accepts-own\", func() bool {{ return err2 == nil || len(offers) != 0 }})\n"
        else: b+=f"\tgvEnsures(\"C04.{n}-accepts-own\", func() bool {{ return err2 == nil }})\n"
        for (p,t),e in zip(ps,eqs):
            b+=f"\tgvEnsures(\"C04.{n}-keeps-{p}\", func() bool {{ return err != nil || err2 != nil || {e} }})\n"
    else:
        b+=f"\terr2 := Decode{n}(m)\n\tgvEnsures(\"C04.{n}-accepts-own\", func() bool {{ return err2 == nil }})\n"
    b+="}\n\n"
    rts=[x.strip() for x in dec[n][1].strip("()").split(",") if x.strip()][:-1]
    names=[(f"r{i}" if t.startswith("*") else "_") for i,t in enumerate(rts)]
    us=", ".join(names+["err"])
    nn=[x for x in names if x!="_"]
    b+=f"//gv:target Decode{n}\n//gv:props C04\n//gv:nopanic C04.{n}-decode-no-panic\n//gv:frame C04.{n}-decode-frame\nfunc contract_{n}_Refuses(fcrMsg *FCRMessage) {{\n\tgvRequires(func() bool {{ return fcrMsg != nil }})\n"
    b+=f"\t{us} := Decode{n}(fcrMsg)\n\tgvEnsures(\"C04.{n}-refuses-other-kinds\", func() bool {{ return err != nil || fcrMsg.messageType == {types[n]} }})\n"
    if ps: b+=f"\tgvEnsures(\"C04.{n}-refuses-malformed-body\", func() bool {{ return err != nil || json.Valid(fcrMsg.messageBody) }})\n"
    if nn: b+=f"\tgvEnsures(\"C04.{n}-accepted-is-complete\", func() bool {{ return err != nil || {' && '.join(x+' != nil' for x in nn)} }})\n"
    b+="}\n\n"
    out.append(b)
ts=sorted(set(types.values()))
print(len(ts))
pairs=[]
for i in range(len(ts)):
    for j in range(i+1,len(ts)): pairs.append(f"{ts[i]} != {ts[j]}")
isdup=lambda p: "GatewayPing" in p and "GatewayNotify" in p
dup=[p for p in pairs if isdup(p)]
pairs=[p for p in pairs if not isdup(p)]
kd="//gv:props C04\nfunc contract_KindsDistinct() {\n"
for i in range(0,len(pairs),100):
    kd+="\tgvEnsures(\"C04.message-kinds-distinct\", func() bool {\n\t\treturn "+" &&\n\t\t\t".join(pairs[i:i+100])+"\n\t})\n"
kd+="\tgvEnsures(\"C04.ping-and-notify-kinds-distinct\", func() bool {\n\t\treturn "+" &&\n\t\t\t".join(dup)+"\n\t})\n"
kd+="}\n"
hdr="package fcrmessages\n\nimport (\n\t\"encoding/json\"\n\n"+"".join(f"\t\"github.com/ConsenSys/fc-retrieval/common/pkg/{i}\"\n" for i in sorted(imports))+")\n\n"
helpers='''
func specSameMsg(a, b *FCRMessage) bool {
	return a.messageType == b.messageType && a.protocolVersion == b.protocolVersion && a.signature == b.signature &&
		gvBytesEq(a.messageBody, b.messageBody) && len(a.protocolSupported) == len(b.protocolSupported) &&
		gvForall(0, len(a.protocolSupported), func(i int) bool { return a.protocolSupported[i] == b.protocolSupported[i] })
}

func specSameOffer(a, b *cidoffer.CIDOffer) bool {
	return a.GetProviderID() != nil && gvBytesEq(a.GetProviderID().ToBytes(), b.GetProviderID().ToBytes()) &&
		a.GetPrice() == b.GetPrice() && a.GetExpiry() == b.GetExpiry() && a.GetQoS() == b.GetQoS() && a.GetSignature() == b.GetSignature() &&
		len(a.GetCIDs()) == len(b.GetCIDs()) &&
		gvForall(0, len(a.GetCIDs()), func(i int) bool { return gvBytesEq(a.GetCIDs()[i].ToBytes(), b.GetCIDs()[i].ToBytes()) })
}
func specPrivateKey(k *fcrcrypto.KeyPair) bool {
	_, err := fcrcrypto.DecodePrivateKey(k.EncodePrivateKey())
	return err == nil
}

// offers as the constructors and decoders of cidoffer make them
func specOfferOK(o *cidoffer.CIDOffer) bool {
	return o.GetProviderID() != nil && len(o.GetProviderID().ToBytes()) == 32 && len(o.GetCIDs()) > 0 &&
		gvForall(0, len(o.GetCIDs()), func(i int) bool { return len(o.GetCIDs()[i].ToBytes()) == 32 })
}
func specOffersOK(os []cidoffer.CIDOffer) bool {
	return gvForall(0, len(os), func(i int) bool { return specOfferOK(&os[i]) })
}
func specSubOfferOK(o *cidoffer.SubCIDOffer) bool {
	return o.GetProviderID() != nil && len(o.GetProviderID().ToBytes()) == 32 && o.GetSubCID() != nil && len(o.GetSubCID().ToBytes()) == 32 && o.GetMerkleProof() != nil
}
func specOffersOKSub(os []cidoffer.SubCIDOffer) bool {
	return gvForall(0, len(os), func(i int) bool { return specSubOfferOK(&os[i]) })
}
'''
os.makedirs("/verif/contracts/common/pkg/fcrmessages",exist_ok=True)
open("/verif/contracts/common/pkg/fcrmessages/codecs.go","w").write(hdr+"".join(out)+kd+helpers)
