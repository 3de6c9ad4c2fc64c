// Reflection over structs is outside the verifier's reach (C33).
package monkit
prop C28

func StatSourceFromStruct(key, structData) (src)
  op nonnil
  trusted reflection
end
