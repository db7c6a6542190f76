// Package spec holds the reference definitions the checker compares the
// library with, and thin drivers (I_...) that name the library entry points.
// Nothing here is ever run: both sides are analysed from source.
//
// A panic in a reference (S_...) function marks inputs outside the property's
// domain: any behaviour of the library is accepted there.
package spec
