package d_nmap_p_int

//json:json
type D map[NStr]*int

type NStr string
