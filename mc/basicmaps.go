package main

import "fmt"

// Small hand-made rooms used where the geometry itself is not under test.

func addSide(m *Map, sec int, two bool) int {
	s := Side{Sector: sec, Up: "-", Low: "-", Mid: "-"}
	if two {
		s.Up, s.Low = "STARTAN2", "STARTAN2"
	} else {
		s.Mid = "STARTAN2"
	}
	m.Sides = append(m.Sides, s)
	return len(m.Sides) - 1
}

func addVert(m *Map, x, y int) int {
	for i, v := range m.Verts {
		if v.X == x && v.Y == y {
			return i
		}
	}
	m.Verts = append(m.Verts, Vertex{x, y})
	return len(m.Verts) - 1
}

// addLine: right sector rs (>=0), left sector ls (-1 none). Vertices are shared by coordinate.
func addLine(m *Map, x1, y1, x2, y2, rs, ls int) int {
	l := Line{V1: addVert(m, x1, y1), V2: addVert(m, x2, y2), Right: NoSide, Left: NoSide}
	two := rs >= 0 && ls >= 0
	if two {
		l.Flags = 4
	} else {
		l.Flags = 1
	}
	if rs >= 0 {
		l.Right = addSide(m, rs, two)
	}
	if ls >= 0 {
		l.Left = addSide(m, ls, two)
	}
	m.Lines = append(m.Lines, l)
	return len(m.Lines) - 1
}

func addSectors(m *Map, n int) {
	for i := 0; i < n; i++ {
		m.Sectors = append(m.Sectors, Sector{Floor: 0, Ceil: 128, FTex: "FLOOR4_8", CTex: "CEIL3_5", Light: 160})
	}
}

// squareRoom: one sector, 4 lines, clockwise so that the right side is inside.
func squareRoom(x, y, sz int) *Map {
	m := &Map{Desc: fmt.Sprintf("square room at %d,%d size %d", x, y, sz)}
	addSectors(m, 1)
	addLine(m, x, y, x, y+sz, 0, -1)
	addLine(m, x, y+sz, x+sz, y+sz, 0, -1)
	addLine(m, x+sz, y+sz, x+sz, y, 0, -1)
	addLine(m, x+sz, y, x, y, 0, -1)
	m.Things = []Thing{{X: x + sz/2, Y: y + sz/2, Type: 1, Flags: 7}}
	return m
}

// twoRooms: two sectors joined by a two-sided line.
func twoRooms(x, y, sz int) *Map {
	m := &Map{Desc: fmt.Sprintf("two rooms at %d,%d size %d", x, y, sz)}
	addSectors(m, 2)
	addLine(m, x, y, x, y+sz, 0, -1)
	addLine(m, x, y+sz, x+sz, y+sz, 0, -1)
	addLine(m, x+sz, y+sz, x+sz, y, 0, 1)
	addLine(m, x+sz, y, x, y, 0, -1)
	addLine(m, x+sz, y+sz, x+2*sz, y+sz, 1, -1)
	addLine(m, x+2*sz, y+sz, x+2*sz, y, 1, -1)
	addLine(m, x+2*sz, y, x+sz, y, 1, -1)
	m.Things = []Thing{{X: x + sz/2, Y: y + sz/2, Type: 1, Flags: 7}}
	return m
}

// lRoom: an L-shaped sector, needs at least one BSP split.
func lRoom(x, y, sz int) *Map {
	m := &Map{Desc: fmt.Sprintf("L room at %d,%d size %d", x, y, sz)}
	addSectors(m, 1)
	pts := [][2]int{{0, 0}, {0, 2}, {1, 2}, {1, 1}, {2, 1}, {2, 0}}
	for i := range pts {
		a, b := pts[i], pts[(i+1)%len(pts)]
		addLine(m, x+a[0]*sz, y+a[1]*sz, x+b[0]*sz, y+b[1]*sz, 0, -1)
	}
	m.Things = []Thing{{X: x + sz/2, Y: y + sz/2, Type: 1, Flags: 7}}
	return m
}
