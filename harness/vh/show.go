package vh

import "github.com/mescanne/goledger/book"

// View shows the transactions as the program lists them.
func View(ts []book.Transaction) L {
	out := L{}
	for _, t := range ts {
		ps := L{}
		for _, p := range t {
			ps = append(ps, M{"a": p.GetAccount(), "c": p.GetCCY(), "v": p.GetAmount().String(),
				"b": p.GetBalance().String(), "n": p.GetPostNote(), "t": p.GetTransactionNote(),
				"d": int(p.GetDate()), "p": p.GetPayee()})
		}
		out = append(out, M{"d": int(t.GetDate()), "p": t.GetPayee(), "n": t.GetTransactionNote(), "ps": ps})
	}
	return out
}

// Prices shows every price list.
func Prices(b *book.Book) M {
	lists := L{}
	for _, p := range b.GetPricePairs() {
		l := L{}
		for _, x := range b.GetPriceList(p.Unit, p.CCY) {
			l = append(l, L{int(x.GetDate()), x.GetPrice().String()})
		}
		lists = append(lists, M{"u": p.Unit, "c": p.CCY, "l": l})
	}
	return M{"lists": lists}
}
