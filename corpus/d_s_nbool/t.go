package d_s_nbool

//json:json
type D []NBool

type NBool bool
