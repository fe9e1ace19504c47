package d_s_nint

//json:json
type D []NInt

type NInt int
