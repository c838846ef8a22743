package vxf

// Item is the span of a data item, with all that is in it.
type Item struct{ From, To, Depth int }

// Items lists the data items of an encoding, outermost first; nil when it is none.
func Items(b []byte) []Item {
	var r []Item
	end := walk(b, 0, 0, &r)
	if end != len(b) {
		return nil
	}
	return r
}

func walk(b []byte, at, depth int, r *[]Item) int {
	if at >= len(b) {
		return -1
	}
	i := len(*r)
	*r = append(*r, Item{at, 0, depth})
	major, n := b[at]>>5, int(b[at]&31)
	p := at + 1
	if n >= 24 {
		if n > 27 {
			return -1
		}
		k := 1 << (n - 24)
		if p+k > len(b) {
			return -1
		}
		n = 0
		for _, c := range b[p : p+k] {
			n = n<<8 | int(c)
		}
		p += k
	}
	switch major {
	case 2, 3:
		p += n
	case 4, 5, 6:
		if major == 5 {
			n *= 2
		}
		if major == 6 {
			n = 1
		}
		for ; n > 0; n-- {
			p = walk(b, p, depth+1, r)
			if p < 0 {
				return -1
			}
		}
	}
	if p > len(b) {
		return -1
	}
	(*r)[i].To = p
	return p
}
