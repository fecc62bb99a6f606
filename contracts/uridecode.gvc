prop C01  # percent-decoding
def ishex(c: Int): Bool = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')
def hexval(c: Int): Int = if c <= '9' then c - '0' else if c >= 'a' then c - 'a' + 10 else c - 'A' + 10
rec decok(s: String): Bool = !contains(s, "%") || (let i = indexof(s, "%") in i + 2 < len(s) && ishex(at(s, i+1)) && ishex(at(s, i+2)) && decok(from(s, i+3)))
rec dec(s: String): String = if contains(s, "%") then (let i = indexof(s, "%") in upto(s, i) ++ chr(hexval(at(s, i+1))*16 + hexval(at(s, i+2))) ++ dec(from(s, i+3))) else s

fn internal/hexconv.Parse(char) (v)
  aux
  ensures valid: ishex(char) ==> v == hexval(char) + 1
  ensures invalid: !ishex(char) ==> v == 0
  ensures range: v <= 16

fn internal/uridecode.Decode(src, buff) (res, err)
  requires alias: ref(src) != ref(buff) || off(buff) + len(buff) <= off(src)
  modifies bytes(buff)
  case separate: ref(src) != ref(buff)
  case inplace: ref(src) == ref(buff)
  ensures accepts: err == nil <==> decok(old(bytes(src)))
  ensures rejects-with: err != nil ==> err == G("http/status.ErrURIDecoding") && res == nil
  ensures decodes: err == nil ==> bytes(res) == old(bytes(buff)) ++ dec(old(bytes(src)))
  ensures rest-kept: bytes(tail(src)) == old(bytes(tail(src)))
  inv bytes(tail(src)) == old(bytes(tail(src)))
  inv [s:bytes] decok(bytes(s)) == decok(old(bytes(src)))
  inv [s:bytes, b:bytes] bytes(b) ++ dec(bytes(s)) == old(bytes(buff)) ++ dec(old(bytes(src)))
  inv [s:bytes] ref(s) == ref(src)
  inv [s:bytes] off(s) + len(s) == off(src) + len(src)
  inv [s:bytes] off(s) >= off(src)
  inv [s:bytes, b:bytes] off(b) + len(b) <= off(s)
  inv [b:bytes] ref(b) == ref(buff) ==> off(b) == off(buff) && cap(b) == cap(buff)
  inv [b:bytes] ref(b) != ref(buff) ==> fresh(b)
  inv [s:bytes] bytes(s) == old(bytes(s))
  inv [i:int, s:bytes] i == indexof(bytes(s), "%")
