//! Executes operation scripts (JSON) against the public API of the library and
//! records, per operation, the outcome the caller sees.  Knows nothing about
//! what is right: judging is done by the TLA+ specification.
use draviavemal_openxml_office::document_2007::Word;
use draviavemal_openxml_office::presentation_2007::PowerPoint;
use draviavemal_openxml_office::spreadsheet_2007::models::*;
use draviavemal_openxml_office::spreadsheet_2007::parts::WorkSheet;
use draviavemal_openxml_office::spreadsheet_2007::{Excel, ExcelPropertiesModel};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn st(v: &Value, k: &str) -> Option<String> {
    v.get(k).and_then(|x| x.as_str()).map(|x| x.to_string())
}
/// a number, or the name of one JSON has no notation for
fn single(v: &Value, k: &str) -> Option<f32> {
    v.get(k).and_then(|x| match x {
        Value::String(t) => t.parse().ok(),
        _ => x.as_f64().map(|x| x as f32),
    })
}

fn b(v: &Value, k: &str) -> Option<bool> {
    v.get(k).and_then(|x| x.as_bool())
}
/// Text is given as a string or as a list of code points.
fn text(v: &Value, k: &str) -> Option<String> {
    match v.get(k) {
        Some(Value::String(s)) => Some(s.clone()),
        Some(Value::Array(a)) => Some(
            a.iter()
                .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
                .collect(),
        ),
        _ => None,
    }
}

struct Sess {
    excel: Option<Excel>,
    word: Option<Word>,
    ppt: Option<PowerPoint>,
    handles: HashMap<String, WorkSheet>,
    styles: HashMap<String, StyleId>,
}

fn fresh() -> Sess {
    Sess {
        excel: None,
        word: None,
        ppt: None,
        handles: HashMap::new(),
        styles: HashMap::new(),
    }
}

fn color(v: &Value) -> ColorSetting {
    ColorSetting {
        color_setting_type: match st(v, "k").as_deref() {
            Some("rgb") => ColorSettingTypeValues::Rgb,
            Some("indexed") => ColorSettingTypeValues::Indexed,
            _ => ColorSettingTypeValues::Theme,
        },
        value: st(v, "v").unwrap_or("1".into()),
    }
}

fn border(v: &Value) -> BorderSetting {
    let style = match st(v, "s").unwrap_or("none".into()).as_str() {
        "thin" => BorderStyleValues::Thin,
        "thick" => BorderStyleValues::Thick,
        "dotted" => BorderStyleValues::Dotted,
        "double" => BorderStyleValues::Double,
        "dashed" => BorderStyleValues::Dashed,
        "dashDot" => BorderStyleValues::DashDot,
        "dashDotDot" => BorderStyleValues::DashDotDot,
        "medium" => BorderStyleValues::Medium,
        "mediumDashed" => BorderStyleValues::MediumDashed,
        "mediumDashDot" => BorderStyleValues::MediumDashDot,
        "mediumDashDotDot" => BorderStyleValues::MediumDashDotDot,
        "slantDashDot" => BorderStyleValues::SlantDashDot,
        "hair" => BorderStyleValues::Hair,
        _ => BorderStyleValues::None,
    };
    BorderSetting {
        border_color: match v.get("c") {
            Some(c) if c.is_object() => Some(color(c)),
            _ => None,
        },
        style,
    }
}

fn numfmt(id: i64) -> NumberFormatValues {
    use NumberFormatValues::*;
    match id {
        1 => Integer,
        2 => DecimalTwoPlaces,
        3 => ThousandsSeparator,
        4 => ThousandsSeparatorTwoDecimals,
        5 => CurrencyNoDecimals,
        6 => CurrencyNoDecimalsRed,
        7 => CurrencyTwoDecimals,
        8 => CurrencyTwoDecimalsRed,
        9 => Percentage,
        10 => PercentageTwoDecimals,
        11 => Scientific,
        12 => FractionOneDigit,
        13 => FractionTwoDigits,
        14 => DateMMDDYY,
        15 => DateDMmmYY,
        16 => DateDMmm,
        17 => DateMmmYY,
        18 => Time12Hour,
        19 => Time12HourWithSeconds,
        20 => Time24Hour,
        21 => Time24HourWithSeconds,
        22 => DateTimeMMDDYY,
        37 => AccountingNoDecimals,
        38 => AccountingNoDecimalsRed,
        39 => AccountingTwoDecimals,
        40 => AccountingTwoDecimalsRed,
        41 => AccountingNegativeInParentheses,
        42 => AccountingTwoDecimalsNegativeInParentheses,
        43 => AccountingAlignedSymbols,
        44 => AccountingAlignedSymbolsTwoDecimals,
        45 => TimeMinutesSeconds,
        46 => TimeHoursMinutesSeconds,
        47 => ElapsedTimeWithFractions,
        48 => ScientificOneDecimal,
        49 => TextFormat,
        -1 => Custom,
        _ => General,
    }
}

fn style(v: &Value) -> StyleSetting {
    let mut s = StyleSetting::default();
    if let Some(n) = v.get("num").and_then(|x| x.as_i64()) {
        s.number_format = numfmt(n);
    }
    s.custom_number_format = text(v, "code");
    for (k, f) in [
        ("bl", 0),
        ("bt", 1),
        ("br", 2),
        ("bb", 3),
        ("bd", 4),
    ] {
        if let Some(x) = v.get(k) {
            let bs = border(x);
            match f {
                0 => s.border_left = bs,
                1 => s.border_top = bs,
                2 => s.border_right = bs,
                3 => s.border_bottom = bs,
                _ => s.border_diagonal = bs,
            }
        }
    }
    if let Some(x) = text(v, "font") {
        s.font_family = x;
    }
    if let Some(x) = v.get("size").and_then(|x| x.as_u64()) {
        s.font_size = x as u8;
    }
    if let Some(x) = v.get("color") {
        s.text_color = color(x);
    }
    s.is_bold = b(v, "b").unwrap_or(false);
    s.is_italic = b(v, "i").unwrap_or(false);
    s.is_underline = b(v, "u").unwrap_or(false);
    s.is_double_underline = b(v, "uu").unwrap_or(false);
    s.is_wrap_text = b(v, "wrap").unwrap_or(false);
    s.background_color = st(v, "bg");
    s.foreground_color = st(v, "fg");
    s.horizontal_alignment = match st(v, "h").as_deref() {
        Some("left") => HorizontalAlignmentValues::LEFT,
        Some("center") => HorizontalAlignmentValues::CENTER,
        Some("right") => HorizontalAlignmentValues::RIGHT,
        Some("justify") => HorizontalAlignmentValues::JUSTIFY,
        _ => HorizontalAlignmentValues::None,
    };
    s.vertical_alignment = match st(v, "va").as_deref() {
        Some("top") => VerticalAlignmentValues::Top,
        Some("center") => VerticalAlignmentValues::Middle,
        Some("bottom") => VerticalAlignmentValues::Bottom,
        _ => VerticalAlignmentValues::None,
    };
    s
}

fn run_op(s: &mut Sess, op: &Value) -> Result<Value, String> {
    let e = |x: &dyn std::fmt::Display| format!("{:#}", x);
    let kind = st(op, "op").unwrap();
    let sid = |s: &Sess, v: &Value| -> Option<StyleId> {
        st(v, "sty").and_then(|k| s.styles.get(&k).cloned())
    };
    match kind.as_str() {
        "new" => {
            s.handles.clear();
            s.excel = None;
            s.styles.clear();
            s.excel = Some(
                Excel::new(st(op, "file"), ExcelPropertiesModel::default()).map_err(|x| e(&x))?,
            );
            Ok(Value::Null)
        }
        "wnew" => {
            s.word = Some(Word::new(st(op, "file"), Word::default()).map_err(|x| e(&x))?);
            Ok(Value::Null)
        }
        "wsave" => {
            s.word
                .take()
                .ok_or("nosession".to_string())?
                .save_as(&st(op, "file").unwrap())
                .map_err(|x| e(&x))?;
            Ok(Value::Null)
        }
        "pnew" => {
            s.ppt =
                Some(PowerPoint::new(st(op, "file"), PowerPoint::default()).map_err(|x| e(&x))?);
            Ok(Value::Null)
        }
        "psave" => {
            s.ppt
                .take()
                .ok_or("nosession".to_string())?
                .save_as(&st(op, "file").unwrap())
                .map_err(|x| e(&x))?;
            Ok(Value::Null)
        }
        "sleep" => {
            std::thread::sleep(std::time::Duration::from_millis(
                op["ms"].as_u64().unwrap_or(0),
            ));
            Ok(Value::Null)
        }
        "drop" => {
            s.excel = None;
            s.word = None;
            s.ppt = None;
            s.handles.clear();
            s.styles.clear();
            Ok(Value::Null)
        }
        "save" => {
            s.excel
                .take()
                .ok_or("nosession".to_string())?
                .save_as(&st(op, "file").unwrap())
                .map_err(|x| e(&x))?;
            Ok(Value::Null)
        }
        "close" => {
            s.handles
                .remove(&st(op, "h").unwrap())
                .ok_or("nohandle".to_string())?;
            Ok(Value::Null)
        }
        "delete" => {
            let h = s
                .handles
                .remove(&st(op, "h").unwrap())
                .ok_or("nohandle".to_string())?;
            h.delete_sheet_mut().map_err(|x| e(&x))?;
            Ok(Value::Null)
        }
        "cells" => {
            let mut cells = Vec::new();
            for c in op["cells"].as_array().unwrap() {
                let mut p = CellProperties::default();
                p.value = text(c, "v");
                p.formula = text(c, "f");
                p.data_type = match st(c, "t").as_deref() {
                    Some("n") => CellDataType::Number,
                    Some("b") => CellDataType::Boolean,
                    Some("str") => CellDataType::String,
                    Some("s") => CellDataType::ShareString,
                    Some("inlineStr") => CellDataType::InlineString,
                    Some("e") => CellDataType::Error,
                    _ => CellDataType::Auto,
                };
                p.style_id = sid(s, c);
                cells.push(p);
            }
            let h = s
                .handles
                .get_mut(&st(op, "h").unwrap())
                .ok_or("nohandle".to_string())?;
            if let Some(r) = text(op, "ref") {
                h.set_row_value_ref_mut(&r, cells).map_err(|x| e(&x))?;
            } else {
                h.set_row_value_index_mut(
                    op["row"].as_u64().unwrap() as u32,
                    op["col"].as_u64().unwrap() as u16,
                    cells,
                )
                .map_err(|x| e(&x))?;
            }
            Ok(Value::Null)
        }
        "row" => {
            let mut p = RowProperties::default();
            let v = &op["p"];
            p.height = single(v, "height");
            p.hidden = b(v, "hidden");
            p.thick_top = b(v, "thickTop");
            p.thick_bottom = b(v, "thickBot");
            p.style_id = sid(s, v);
            let h = s
                .handles
                .get_mut(&st(op, "h").unwrap())
                .ok_or("nohandle".to_string())?;
            h.set_row_index_properties_mut(&(op["row"].as_u64().unwrap() as u32), p)
                .map_err(|x| e(&x))?;
            Ok(Value::Null)
        }
        "col" => {
            let props = if op["p"].is_null() {
                None
            } else {
                let v = &op["p"];
                let mut p = ColumnProperties::default();
                p.width = single(v, "width");
                p.hidden = b(v, "hidden");
                p.best_fit = b(v, "bestFit");
                p.style_id = sid(s, v);
                Some(p)
            };
            let h = s
                .handles
                .get_mut(&st(op, "h").unwrap())
                .ok_or("nohandle".to_string())?;
            if let Some(r) = text(op, "ref") {
                h.set_column_ref_properties_mut(&r, props).map_err(|x| e(&x))?;
            } else {
                h.set_column_index_properties_mut(&(op["col"].as_u64().unwrap() as u16), props)
                    .map_err(|x| e(&x))?;
            }
            Ok(Value::Null)
        }
        _ => {
            let x = s.excel.as_mut().ok_or("nosession".to_string())?;
            match kind.as_str() {
                "add" => {
                    let w = x.add_sheet_mut(text(op, "name")).map_err(|x| e(&x))?;
                    s.handles.insert(st(op, "h").unwrap(), w);
                    if text(op, "name").is_none() {
                        return Ok(json!(x.list_sheet_names().map_err(|x| e(&x))?));
                    }
                    Ok(Value::Null)
                }
                "get" => {
                    let w = x
                        .get_worksheet_mut(text(op, "name").unwrap())
                        .map_err(|x| e(&x))?;
                    s.handles.insert(st(op, "h").unwrap(), w);
                    Ok(Value::Null)
                }
                "rename" => {
                    x.rename_sheet_name_mut(text(op, "old").unwrap(), text(op, "new").unwrap())
                        .map_err(|x| e(&x))?;
                    Ok(Value::Null)
                }
                "active" => {
                    x.set_active_sheet_mut(text(op, "name").unwrap())
                        .map_err(|x| e(&x))?;
                    Ok(Value::Null)
                }
                "hide" => {
                    x.hide_sheet_mut(text(op, "name").unwrap()).map_err(|x| e(&x))?;
                    Ok(Value::Null)
                }
                "list" => Ok(json!(x.list_sheet_names().map_err(|x| e(&x))?)),
                "view" => {
                    let v = b(op, "v").unwrap();
                    match st(op, "k").unwrap().as_str() {
                        "visible" => x.set_visibility_mut(v),
                        "minimize" => x.minimize_workbook_mut(v),
                        "tabs" => x.hide_sheet_tabs_mut(v),
                        "vscroll" => x.hide_vertical_scroll_mut(v),
                        _ => x.hide_horizontal_scroll_mut(v),
                    }
                    .map_err(|x| e(&x))?;
                    Ok(Value::Null)
                }
                "style" => {
                    let id = x.get_style_id_mut(style(&op["s"])).map_err(|x| e(&x))?;
                    let n = id.get_id();
                    s.styles.insert(st(op, "as").unwrap(), id);
                    Ok(json!(n))
                }
                other => Err(format!("unknown op {}", other)),
            }
        }
    }
}

fn now() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_secs()
}

/// Runs the operations `ops` (index in the script, operation) and reports each
/// outcome to `emit`.  Operations name the session they belong to by `ss`.
fn run_ops(id: &str, ops: &[(usize, Value)], emit: &mut dyn FnMut(Value)) {
    let mut ses: HashMap<String, Sess> = HashMap::new();
    let mut dead: Vec<String> = Vec::new();
    // names the library chose, by the token the script gives them
    let mut names: HashMap<(String, String), String> = HashMap::new();
    for (i, op) in ops {
        let mut op = op.clone();
        let mut sub = serde_json::Map::new();
        for k in ["name", "old", "new"] {
            if let Some(tok) = op.get(k).and_then(|x| x.get("tok")).and_then(|x| x.as_str()) {
                let key = (st(&op, "ss").unwrap_or_default(), tok.to_string());
                let n = names.get(&key).cloned().unwrap_or(tok.to_string());
                sub.insert(k.to_string(), json!(n));
                op[k] = json!(n);
            }
        }
        let op = &op;
        let kind = st(op, "op").unwrap_or_default();
        if kind == "mark" {
            continue;
        }
        let ss = st(op, "ss").unwrap_or_default();
        if dead.contains(&ss) {
            continue;
        }
        let s = ses.entry(ss.clone()).or_insert_with(fresh);
        let t0 = now();
        let r = catch_unwind(AssertUnwindSafe(|| run_op(s, op)));
        let mut rec = match r {
            Ok(Ok(v)) => json!({"sid": id, "i": i, "res": "ok", "ret": v}),
            Ok(Err(m)) => json!({"sid": id, "i": i, "res": "err", "msg": m}),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
                dead.push(ss.clone());
                std::mem::forget(ses.remove(&ss));
                json!({"sid": id, "i": i, "res": "panic", "msg": m})
            }
        };
        if let (Some(tok), Some(list)) = (st(op, "as"), rec["ret"].as_array()) {
            if let Some(n) = list.last().and_then(|x| x.as_str()) {
                names.insert((ss.clone(), tok), n.to_string());
            }
        }
        if !sub.is_empty() {
            rec["sub"] = Value::Object(sub);
        }
        if kind.ends_with("save") {
            rec["t0"] = json!(t0);
            rec["t1"] = json!(now());
        }
        emit(rec);
    }
    for (_, s) in ses {
        if catch_unwind(AssertUnwindSafe(move || drop(s))).is_err() {
            emit(json!({"sid": id, "i": -1, "res": "panic", "msg": "drop"}));
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let scripts = std::fs::read_to_string(&args[1]).unwrap();
    let mut out = BufWriter::new(
        std::fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(&args[2])
            .unwrap(),
    );
    std::panic::set_hook(Box::new(|_| {}));
    let flush_each = args.get(3).map(|x| x == "flush").unwrap_or(false);
    for line in scripts.lines() {
        if line.trim().is_empty() {
            continue;
        }
        let script: Value = serde_json::from_str(line).unwrap();
        let id = st(&script, "id").unwrap();
        let ops: Vec<(usize, Value)> = script["ops"]
            .as_array()
            .unwrap()
            .iter()
            .cloned()
            .enumerate()
            .collect();
        if b(&script, "par").unwrap_or(false) {
            // one thread per session, all running at the same time
            let mut lanes: Vec<(String, Vec<(usize, Value)>)> = Vec::new();
            for (i, op) in ops {
                let ss = st(&op, "ss").unwrap_or_default();
                match lanes.iter_mut().find(|x| x.0 == ss) {
                    Some(l) => l.1.push((i, op)),
                    None => lanes.push((ss, vec![(i, op)])),
                }
            }
            let gate = std::sync::Arc::new(std::sync::Barrier::new(lanes.len()));
            let threads: Vec<_> = lanes
                .into_iter()
                .map(|(_, lane)| {
                    let gate = gate.clone();
                    let id = id.clone();
                    std::thread::spawn(move || {
                        let mut recs = Vec::new();
                        gate.wait();
                        run_ops(&id, &lane, &mut |r| recs.push(r));
                        recs
                    })
                })
                .collect();
            for t in threads {
                match t.join() {
                    Ok(recs) => {
                        for r in recs {
                            writeln!(out, "{}", r).unwrap();
                        }
                    }
                    Err(_) => writeln!(
                        out,
                        "{}",
                        json!({"sid": id, "i": -1, "res": "panic", "msg": "thread"})
                    )
                    .unwrap(),
                }
            }
        } else {
            run_ops(&id, &ops, &mut |r| {
                writeln!(out, "{}", r).unwrap();
                if flush_each {
                    out.flush().unwrap();
                }
            });
        }
        writeln!(out, "{}", json!({"sid": id, "i": -2, "res": "end"})).unwrap();
        out.flush().unwrap();
    }
}
