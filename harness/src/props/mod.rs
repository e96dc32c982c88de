use crate::engine::*;
mod c01; mod strings; mod robust; mod pool; mod text; mod insn; mod layout; mod tables; mod repeat; mod limits; mod misc; mod attrs; mod parts; mod eq; mod seq;
pub fn run(id: &str, ctx: &'static Ctx) -> i32 {
    match id {
        "C01" => c01::c01(ctx), "C02" => c01::c02(ctx), "C03" => c01::c03(ctx),
        "C04" => robust::c04(ctx), "C05" => robust::c05(ctx),
        "C09" => pool::c09(ctx), "C10" => pool::c10(ctx),
        "C11" => text::c11(ctx), "C12" => text::c12(ctx),
        "C13" => insn::c13(ctx),
        "C14" => layout::c14(ctx),
        "C15" => tables::c15(ctx),
        "C16" => repeat::c16(ctx),
        "C17" => limits::c17(ctx),
        "C18" => misc::c18(ctx), "C19" => misc::c19(ctx), "C20" => attrs::c20(ctx), "C21" => attrs::c21(ctx), "C22" => misc::c22(ctx), "C23" => misc::c23(ctx),
        "C24" => parts::c24(ctx), "C25" => eq::c25(ctx), "C26" => seq::c26(ctx),
        "C06" => strings::c06(ctx), "C07" => strings::c07(ctx), "C08" => strings::c08(ctx),
        _ => { eprintln!("unknown property {id}"); 2 }
    }
}
