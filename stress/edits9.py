# drawings
L = "dandy-draw/src/lib.rs"
P = "dandy-draw/src/pos2.rs"
EDITS = globals().get("EDITS", [])
EDITS += [
    ("R300-new-if", "C24", L, [('''        use std::cmp::Ordering::*;
        use Direction::*;
        match from.cmp(&to) {
            Less => Arrow {
                left: from,
                right: to,
                direction: Right,
                label,
            },
            Equal => Arrow {
                left: from,
                right: to,
                direction: Spot,
                label,
            },
            Greater => Arrow {
                left: to,
                right: from,
                direction: Left,
                label,
            },
        }''', '''        let direction = if from == to {
            Direction::Spot
        } else if from > to {
            Direction::Left
        } else {
            Direction::Right
        };
        Arrow {
            left: from.min(to),
            right: from.max(to),
            direction,
            label,
        }''')]),
    ("R301-dfa-loop", "C24", L, [('''    dfa.states()
        .iter()
        .enumerate()
        .flat_map(|(from, state)| {
            state
                .transitions()
                .iter()
                .enumerate()
                .map(move |(idx, to)| Arrow::new(from, *to, &dfa.alphabet()[idx]))
        })
        .collect()''', '''    let mut arrows = Vec::new();
    for from in 0..dfa.states().len() {
        let state = &dfa.states()[from];
        for (symbol, &to) in dfa.alphabet().iter().zip(state.transitions()) {
            arrows.push(Arrow::new(from, to, symbol));
        }
    }
    arrows''')]),
    ("R302-nfa-loop", "C24", L, [('''                .chain(
                    state
                        .epsilon_transitions()
                        .iter()
                        .map(move |to| Arrow::new(from, *to, "ε")),
                )
        })
        .collect()''', '''                .chain(state.epsilon_transitions().iter().map(move |&to| {
                    let label = "ε";
                    Arrow::new(from, to, label)
                }))
        })
        .collect::<Vec<_>>()''')]),
    ("R303-group-loop", "C24", L, [('''    arrows
        .into_iter()
        .fold(HashMap::<_, Vec<Arrow>>::new(), |mut map, arrow| {
            map.entry((arrow.left, arrow.right, arrow.direction))
                .or_default()
                .push(arrow);
            map
        })
        .drain()
        .map(|((left, right, direction), arrows)| GroupedArrow {
            left,
            right,
            direction,
            labels: arrows.into_iter().map(|arrow| arrow.label).collect(),
        })
        .collect()''', '''    let mut groups: HashMap<(usize, usize, Direction), Vec<&str>> = HashMap::new();
    for Arrow { left, right, direction, label } in arrows {
        groups.entry((left, right, direction)).or_default().push(label);
    }
    groups
        .into_iter()
        .map(|((left, right, direction), labels)| GroupedArrow { left, right, direction, labels })
        .collect()''')]),
    ("R304-place-end", "C24", L, [('''                if arrow.left() == arrow.right() {
                    end_of_last = arrow.right() + 1;
                } else {
                    end_of_last = arrow.right();
                }
''', '''                let is_loop = arrow.left() == arrow.right();
                end_of_last = arrow.right() + usize::from(is_loop);
''')]),
    ("R305-place-inner", "C24", L, [('''    let mut end_of_last = 0;
    let mut placed''', '''    let mut placed'''), ('''        // do one pass''', '''        let mut end_of_last = 0;
        // do one pass'''), ('''        end_of_last = 0;
    }
''', '''    }
''')]),
    ("R306-place-rev", "C24", L, [('''    unplaced.sort_by_key(|arrow| usize::MAX - arrow.right()); // sort in reverse order''', '''    unplaced.sort_by_key(|arrow| std::cmp::Reverse(arrow.right()));''')]),
    ("R315-place-sortby", "C24", L, [('''    unplaced.sort_by_key(|arrow| usize::MAX - arrow.right()); // sort in reverse order''', '''    unplaced.sort_by(|a, b| b.right().cmp(&a.right()));''')]),
    ("B317-place-sort", "C24", L, [('''    unplaced.sort_by_key(|arrow| usize::MAX - arrow.right()); // sort in reverse order''', '''    unplaced.sort_by(|a, b| a.right().cmp(&b.right()));''')]),
    ("R307-circle-helper", "C24", L, [('''        drawer.draw_circle(cc, opts.circle_radius, opts.circle_width);
        if state.accepting {
            drawer.draw_circle(
                cc,
                opts.accepting_circle_radius,
                opts.accepting_circle_width,
            );
        }
''', '''        let mut circle = |radius, width| drawer.draw_circle(cc, radius, width);
        circle(opts.circle_radius, opts.circle_width);
        if state.accepting {
            circle(opts.accepting_circle_radius, opts.accepting_circle_width);
        }
''')]),
    ("R308-x-pos-fn", "C24", L, [('''    let x_pos = |idx: usize| -> f32 {
        opts.init_arrow_length
            + opts.center_line_padding
            + opts.circle_radius
            + (opts.circle_radius * 2.0 + opts.center_line_padding) * idx as f32
    };
''', '''    let first_x = opts.init_arrow_length + opts.center_line_padding + opts.circle_radius;
    let step = 2.0 * opts.circle_radius + opts.center_line_padding;
    let x_pos = |idx: usize| -> f32 { first_x + idx as f32 * step };
''')]),
    ("R309-middle-match", "C24", L, [('''            let mul = if arrow.arrow.direction == Direction::Left {
                1.0
            } else {
                -1.0
            };
''', '''            let mul = match arrow.arrow.direction {
                Direction::Left => 1.0,
                Direction::Right | Direction::Spot => -1.0,
            };
''')]),
    ("R310-marker-fn", "C24", L, [('''            drawer.draw_line(
                start,
                start + pos2(opts.init_arrow_arms_length, opts.init_arrow_arms_length),
                opts.init_arrow_width,
            );
            drawer.draw_line(
                start,
                start + pos2(-opts.init_arrow_arms_length, opts.init_arrow_arms_length),
                opts.init_arrow_width,
            );
''', '''            for x in [opts.init_arrow_arms_length, -opts.init_arrow_arms_length] {
                let arm = start + pos2(x, opts.init_arrow_arms_length);
                drawer.draw_line(start, arm, opts.init_arrow_width);
            }
''')]),
    ("R311-states-foreach", "C24", L, [('''    let states = dfa.states().iter().map(Into::into).collect::<Vec<State>>();
    let arrows = dfa_to_arrows(dfa);
    draw(''', '''    let arrows = dfa_to_arrows(dfa);
    let states: Vec<State> = dfa.states().iter().map(State::from).collect();
    draw(''')]),
    ("R312-offset-helper", "C24", L, [('''impl<'a, T: Drawer> Drawer for OffsetScaleDrawer<'a, T> {''', '''impl<'a, T> OffsetScaleDrawer<'a, T> {
    fn at(&self, p: Pos2) -> Pos2 {
        (p + self.offset) * self.scale
    }
}

impl<'a, T: Drawer> Drawer for OffsetScaleDrawer<'a, T> {'''), ('''        self.drawer.draw_line(
            (from + self.offset) * self.scale,
            (to + self.offset) * self.scale,
            thickness,
        )''', '''        let (from, to) = (self.at(from), self.at(to));
        self.drawer.draw_line(from, to, thickness)''')]),
    ("R313-place-partition", "C24", L, [('''        let mut old_unplaced = mem::take(&mut unplaced);
        while let Some(arrow) = old_unplaced.pop() {
            if arrow''', '''        let old_unplaced = mem::take(&mut unplaced);
        for arrow in old_unplaced.into_iter().rev() {
            if arrow''')]),
    ("R314-arrow-fn", "C24", L, [('''    for arrow in arrows {
        drawer.set_color(opts.line_color);
        let line_height = opts.floor_height * (levels - arrow.level) as f32;
''', '''    for PlacedArrow { arrow, level, .. } in arrows {
        drawer.set_color(opts.line_color);
        let arrow = PlacedArrow { arrow, level, phantom: PhantomData };
        let line_height = (levels - arrow.level) as f32 * opts.floor_height;
''')]),
    ("B300-new-swap", "C24", L, [('''            Greater => Arrow {
                left: to,
                right: from,''', '''            Greater => Arrow {
                left: from,
                right: to,''')]),
    ("B301-no-eps", "C24", L, [('''                .chain(
                    state
                        .epsilon_transitions()
                        .iter()
                        .map(''', '''                .chain(
                    state
                        .epsilon_transitions()
                        .iter()
                        .filter(move |&&to| to != from)
                        .map(''')]),
    ("B302-group-dir", "C24", L, [('''            map.entry((arrow.left, arrow.right, arrow.direction))''', '''            map.entry((arrow.left, arrow.right, if arrow.left + 1 == arrow.right { Direction::Right } else { arrow.direction }))''')]),
    ("B303-place-loop", "C24", L, [('''                if arrow.left() == arrow.right() {
                    end_of_last = arrow.right() + 1;''', '''                if arrow.left() == arrow.right() && end_of_last == 0 {
                    end_of_last = arrow.right() + 1;''')]),
    ("B304-place-reset", "C24", L, [('''        unplaced.reverse();
        end_of_last = 0;''', '''        unplaced.reverse();
        end_of_last = end_of_last.min(1);''')]),
    ("B305-accepting", "C24", L, [('''        if state.accepting {
            drawer.draw_circle(''', '''        if state.accepting && !(state.initial && idx > 0) {
            drawer.draw_circle(''')]),
    ("B306-scale", "C24", L, [('''            radius * self.scale.x,''', '''            radius * self.scale.y,''')]),
    ("B307-text-offset", "C24", L, [('''            .draw_centered_text((pos + self.offset) * self.scale, text)''', '''            .draw_centered_text(pos * self.scale + self.offset, text)''')]),
    ("B308-head", "C24", L, [('''            let (x, y) = if arrow.arrow.direction == Direction::Right {''', '''            let (x, y) = if arrow.arrow.direction != Direction::Left {''')]),
    ("B309-nfa-initial", "C24", L, [('''impl<'a> From<&'a NfaState> for State<'a> {
    fn from(value: &'a NfaState) -> Self {
        State {
            name: value.name(),
            accepting: value.is_accepting(),
            initial: value.is_initial(),''', '''impl<'a> From<&'a NfaState> for State<'a> {
    fn from(value: &'a NfaState) -> Self {
        State {
            name: value.name(),
            accepting: value.is_accepting(),
            initial: value.is_initial() && value.epsilon_transitions().is_empty(),''')]),
    ("B310-nfa-first", "C24", L, [('''                    tos.iter()
                        .map(move |to| Arrow::new(from, *to, &nfa.alphabet()[idx]))''', '''                    tos.first().into_iter()
                        .map(move |to| Arrow::new(from, *to, &nfa.alphabet()[idx]))''')]),
    ("B311-level", "C24", L, [('''(levels - arrow.level) as f32;''', '''(levels - arrow.level.min(3)) as f32;''')]),
    ("B312-labels", "C24", L, [('''            labels: arrows.into_iter().map(|arrow| arrow.label).collect(),''', '''            labels: arrows.into_iter().map(|arrow| arrow.label).filter(|l| !l.is_empty()).take(8).collect(),''')]),
    ("B314-midoff", "C24", L, [('''        if opts.end_arrow {''', '''        if opts.end_arrow || !opts.middle_arrow {''')]),
    ("B315-color", "C24", L, [('''        drawer.set_color(opts.text_color);
        drawer.draw_centered_text(cc, state.name);''', '''        if !state.initial {
            drawer.set_color(opts.text_color);
        }
        drawer.draw_centered_text(cc, state.name);''')]),
    ("B316-place-lt", "C24", L, [('''            if arrow.left() >= end_of_last {''', '''            if arrow.right() >= end_of_last {''')]),
]
