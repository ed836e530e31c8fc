solana_program::declare_id!("AddressLookupTab1e1111111111111111111111111");
pub mod state {
    use solana_program::{instruction::InstructionError, pubkey::Pubkey};
    pub const LOOKUP_TABLE_META_SIZE: usize = 56;
    /// only what alt_set needs: type tag check and address slice
    pub struct AddressLookupTable<'a> { pub addresses: &'a [[u8; 32]] }
    impl<'a> AddressLookupTable<'a> {
        pub fn deserialize(data: &'a [u8]) -> Result<AddressLookupTable<'a>, InstructionError> {
            let tag = data.get(0..4).ok_or(InstructionError::InvalidAccountData)?;
            match tag[0] {
                0 => return Err(InstructionError::UninitializedAccount),
                1 => (),
                _ => return Err(InstructionError::InvalidAccountData),
            }
            let raw = data.get(LOOKUP_TABLE_META_SIZE..).ok_or(InstructionError::InvalidAccountData)?;
            if raw.len() % 32 != 0 { return Err(InstructionError::InvalidAccountData); }
            let addresses = unsafe { std::slice::from_raw_parts(raw.as_ptr() as *const [u8; 32], raw.len() / 32) };
            let _ = Pubkey::default();
            Ok(AddressLookupTable { addresses })
        }
    }
}
pub mod instruction {
    use solana_program::{instruction::*, pubkey::Pubkey, system_program};
    pub fn extend_lookup_table(t: Pubkey, auth: Pubkey, payer: Option<Pubkey>, new: Vec<Pubkey>) -> Instruction {
        let mut accounts = vec![AccountMeta::new(t, false), AccountMeta::new_readonly(auth, true)];
        if let Some(p) = payer {
            accounts.push(AccountMeta::new(p, true));
            accounts.push(AccountMeta::new_readonly(system_program::ID, false));
        }
        let mut data = vec![2u8, 0, 0, 0];
        data.extend_from_slice(&(new.len() as u64).to_le_bytes());
        for k in new { data.extend_from_slice(k.as_ref()); }
        Instruction { program_id: crate::ID, accounts, data }
    }
}
