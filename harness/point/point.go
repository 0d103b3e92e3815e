//go:build go1.22

// Package point is where the scheduler of C23 gets hold of a goroutine inside the library.
package point

// Hook is called before a statement of the library that uses synchronised data.
var Hook func()

// held counts the locks that the goroutine in charge holds.
var held [8]int

// Who tells which goroutine is in charge; negative: none of those under control.
var Who func() int

//go:norace
func Point() {
	if Hook == nil {
		return
	}
	if w := Who(); w >= 0 && held[w] == 0 {
		Hook()
	}
}

// Locked and Unlocked surround the part of a function in which others may have to wait.
//
//go:norace
func Locked() {
	if Who != nil {
		if w := Who(); w >= 0 {
			held[w]++
		}
	}
}

//go:norace
func Unlocked() {
	if Who != nil {
		if w := Who(); w >= 0 && held[w] > 0 {
			held[w]--
		}
	}
}

//go:norace
func Reset() {
	for i := range held {
		held[i] = 0
	}
}
