package d_tbytes

//json:json
type D TBytes

//json:json
type TBytes []byte
