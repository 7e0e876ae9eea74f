import subprocess
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','a2f3c72..HEAD'],capture_output=True,text=True).stdout.strip().splitlines()
M={
'matter parsing reports non-ASCII':('C02','text with a multi-byte character inside the code, size or material panicked'),
"matter parsing rejects '='":('C02',"'=' padded text was accepted with shorter raw (and panicked for some lengths)"),
'matter parsing reports missing lead bytes':('C02','variable-length codes with lead bytes and size 0 ("5AAA", "6AAA") panicked in text and binary'),
'matter construction rejects unknown':('C01','construction from raw with code "4" or "7A" panicked, unknown "4Z" was accepted'),
'indexer parsing reports non-ASCII':('C04','text with a multi-byte character inside the code, index or signature panicked'),
"indexer parsing rejects '='":('C04',"'=' padded text was accepted with a shorter signature"),
'single-index codes keep one index':('C03','code A with index 6 and other-index 0 was accepted and lost the other-index; 0z without other-index reported 0'),
'indexed codes with lead bytes':('C03','codes 1z and 4z demanded 54 raw bytes and returned the lead byte as raw, or panicked'),
'binary indexer encoding checks':('C03','qb2 of codes 3A, 3B, 4z panicked on overflow; other-index width unchecked'),
'encoding reports raw material':('C22','qb64 of an object holding raw of the wrong size panicked on subtraction overflow'),
'counter parsing reports short':('C05','one-character and non-ASCII text panicked'),
'Base64 integers that do not fit':('C05','Counter::new(code "-A", count_b64 "BAAAAAA") gave count 0'),
'a salter is only made':('C21','a salter was made from the text of any primitive'),
'a number is only made':('C21','a number was made from the text of any primitive'),
'a prefix is only made':('C21','a prefix was made from the text of any primitive'),
}
import json
try: M.update({k:tuple(v) for k,v in json.load(open('/verif/tools/fixes.json')).items()})
except FileNotFoundError: pass
out=["# Genuine defects of WebOfTrust/cesride found by these checks.","# known: property=<id> key=<key> <what fails>   - recorded, printed as KNOWN-FINDING","# fixed: property=<id> <commit> <what failed>   - repaired; suppresses nothing"]
try: out+=[l.rstrip() for l in open('/verif/tools/known.txt')]
except FileNotFoundError: pass
for l in log:
    h,s=l.split(' ',1)
    s=s[len('fix: '):]
    k=[k for k in M if s.startswith(k)]
    assert len(k)==1,(s,k)
    out.append(f"fixed: property={M[k[0]][0]} {h} {M[k[0]][1]}")
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
