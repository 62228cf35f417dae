F = 'packages/zkenc-cli/src/sym_parser.rs'
SRC = open('/repo/' + F).read()
def body(n):
    i = SRC.index('pub fn ' + n + '('); j = SRC.index('\n}\n', i) + 3
    return SRC[i:j]
P = body('parse_sym_file'); G = body('get_input_signals')
SIGP = P[:P.index('{\n') + 2]; SIGG = G[:G.index('{\n') + 2]
LOOP = P[P.index('        let line = line.trim();'):P.index('    }\n\n    Ok(wire_map)')]
R = []
R.append(('slice_pat', [(F, '''        let parts: Vec<&str> = line.split(',').collect();
        if parts.len() != 4 {
            continue; // Skip invalid lines
        }
''', '''        let parts: Vec<&str> = line.split(',').collect();
        let &[_, wire_field, _, name_field] = parts.as_slice() else {
            continue;
        };
'''), (F, 'parts[1].trim().parse()', 'wire_field.trim().parse()'), (F, 'parts[3].trim().to_string()', 'name_field.trim().to_owned()'), (F, '                parts[1],\n', '                wire_field,\n')]))
R.append(('helper_line', [(F, P, '''fn parse_line(line_num: usize, line: &str) -> Result<Option<(String, u32)>> {
    let line = line.trim();
    if line.is_empty() {
        return Ok(None);
    }
    let parts: Vec<&str> = line.split(',').collect();
    if parts.len() != 4 {
        return Ok(None);
    }
    let wire: i32 = parts[1]
        .trim()
        .parse()
        .map_err(|e| anyhow::anyhow!("Line {}: Failed to parse wire_id '{}': {}", line_num + 1, parts[1], e))?;
    if wire < 0 {
        return Ok(None);
    }
    Ok(Some((parts[3].trim().to_string(), wire as u32)))
}

''' + SIGP + '''    let mut wire_map = HashMap::new();
    for (line_num, line) in sym_content.lines().enumerate() {
        if let Some((name, wire)) = parse_line(line_num, line)? {
            wire_map.insert(name, wire);
        }
    }
    Ok(wire_map)
}
''')]))
R.append(('noempty', [(F, '''        if line.is_empty() {
            continue;
        }
''', '')]))
R.append(('if_ge', [(F, '''        if wire_id_signed < 0 {
            continue;
        }

        let wire_id = wire_id_signed as u32;
        let signal_name = parts[3].trim().to_string();

        wire_map.insert(signal_name, wire_id);
''', '''        if wire_id_signed >= 0 {
            wire_map.insert(parts[3].trim().to_string(), wire_id_signed as u32);
        }
''')]))
R.append(('try_from', [(F, '''        if wire_id_signed < 0 {
            continue;
        }

        let wire_id = wire_id_signed as u32;
''', '''        let Ok(wire_id) = u32::try_from(wire_id_signed) else {
            continue;
        };
''')]))
R.append(('filter_map', [(F, G, SIGG + '''    wire_map
        .iter()
        .filter(|(_, &wire_id)| max_wire_id.map_or(true, |max| wire_id <= max))
        .filter_map(|(name, &wire_id)| {
            name.strip_prefix("main.").map(|short| (short.to_string(), wire_id))
        })
        .collect()
}
''')]))
R.append(('unwrap_or_max', [(F, G, SIGG + '''    let limit = max_wire_id.unwrap_or(u32::MAX);
    let mut input_signals = HashMap::with_capacity(wire_map.len());
    for (name, wire_id) in wire_map {
        if *wire_id <= limit && name.starts_with("main.") {
            input_signals.insert(name["main.".len()..].to_string(), *wire_id);
        }
    }
    input_signals
}
''')]))
R.append(('match_bound', [(F, '''        if let Some(max) = max_wire_id {
            if wire_id > max {
                continue;
            }
        }
''', '''        match max_wire_id {
            Some(max) if wire_id > max => continue,
            _ => {}
        }
''')]))
R.append(('is_some_and', [(F, '''        if let Some(max) = max_wire_id {
            if wire_id > max {
                continue;
            }
        }
''', '''        if max_wire_id.is_some_and(|max| max < wire_id) {
            continue;
        }
''')]))
R.append(('letelse', [(F, '''        if let Some(simplified) = signal_name.strip_prefix("main.") {
            input_signals.insert(simplified.to_string(), wire_id);
        }
''', '''        let Some(simplified) = signal_name.strip_prefix("main.") else {
            continue;
        };
        input_signals.insert(String::from(simplified), wire_id);
''')]))
R.append(('swap_checks', [(F, '''        // Skip if wireId exceeds maximum (if specified)
        if let Some(max) = max_wire_id {
            if wire_id > max {
                continue;
            }
        }

        // Extract input signals (those starting with "main.")
        if let Some(simplified) = signal_name.strip_prefix("main.") {
            input_signals.insert(simplified.to_string(), wire_id);
        }
''', '''        if let Some(simplified) = signal_name.strip_prefix("main.") {
            let within = match max_wire_id {
                Some(max) => wire_id <= max,
                None => true,
            };
            if within {
                input_signals.insert(simplified.to_string(), wire_id);
            }
        }
''')]))
R.append(('splitn_iter', [(F, '''        let parts: Vec<&str> = line.split(',').collect();
        if parts.len() != 4 {
            continue; // Skip invalid lines
        }
''', '''        let parts: Vec<&str> = line.split(",").map(str::trim).collect();
        if parts.len() != 4 {
            continue;
        }
'''), (F, 'parts[1].trim().parse()', 'parts[1].parse::<i32>()'), (F, 'parts[3].trim().to_string()', 'parts[3].to_string()')]))
R.append(('match_parse', [(F, '''        let wire_id_signed: i32 = parts[1].trim().parse().map_err(|e| {
            anyhow::anyhow!(
                "Line {}: Failed to parse wire_id '{}': {}",
                line_num + 1,
                parts[1],
                e
            )
        })?;
''', '''        let wire_id_signed = match parts[1].trim().parse::<i32>() {
            Ok(id) => id,
            Err(e) => {
                return Err(anyhow::anyhow!("Line {}: Failed to parse wire_id '{}': {}", line_num + 1, parts[1], e));
            }
        };
''')]))
R.append(('while_iter', [(F, '    for (line_num, line) in sym_content.lines().enumerate() {', '''    let mut line_num = 0usize;
    for line in sym_content.lines() {
        line_num += 1;'''), (F, 'line_num + 1', 'line_num')]))
R.append(('fold_lines', [(F, P, SIGP + '''    let mut wire_map = HashMap::new();
    let numbered = sym_content
        .lines()
        .map(str::trim)
        .enumerate()
        .filter(|(_, l)| !l.is_empty());
    for (line_num, line) in numbered {
        let parts = line.split(',').collect::<Vec<_>>();
        if parts.len() == 4 {
            let wire_id: i32 = parts[1]
                .trim()
                .parse()
                .map_err(|e| anyhow::anyhow!("Line {}: {} {}", line_num + 1, parts[1], e))?;
            if wire_id >= 0 {
                wire_map.insert(parts[3].trim().to_string(), wire_id as u32);
            }
        }
    }
    Ok(wire_map)
}
''')]))
R.append(('collect_result', [(F, P, SIGP + '''    sym_content
        .lines()
        .map(|line| line.trim().split(',').collect::<Vec<&str>>())
        .filter(|parts| parts.len() == 4)
        .map(|parts| {
            let wire: i32 = parts[1].trim().parse().map_err(|e| anyhow::anyhow!("bad wire id '{}': {}", parts[1], e))?;
            Ok((parts[3].trim().to_string(), wire))
        })
        .filter(|r: &Result<(String, i32)>| match r {
            Ok((_, wire)) => *wire >= 0,
            Err(_) => true,
        })
        .map(|r| r.map(|(n, w)| (n, w as u32)))
        .collect()
}
''')]))
R.append(('split_iter_next', [(F, '''        let parts: Vec<&str> = line.split(',').collect();
        if parts.len() != 4 {
            continue; // Skip invalid lines
        }
''', '''        if line.split(',').count() != 4 {
            continue;
        }
        let parts: Vec<&str> = line.split(',').collect();
''')]))
