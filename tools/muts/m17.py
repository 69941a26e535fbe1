# refactorings, another round
R = "src/rdata/"
MUTS = [
    ("q-caa", R + "caa.rs", """        let mut buff = Vec::with_capacity(self.byte_size());
        buff.push((self.issuer_critical as u8) << 7);
        buff.push(self.tag.len() as u8);
        buff.extend_from_slice(self.tag.as_bytes());
        buff.extend_from_slice(&self.value);
        buff
""", """        let flags = if self.issuer_critical { 0x80 } else { 0u8 };
        [
            &[flags, self.tag.len() as u8][..],
            self.tag.as_bytes(),
            self.value.as_slice(),
        ]
        .concat()
""", ""),
    ("q-caa-read", R + "caa.rs", """        let flags = buffer.extract_u8()?;
        let tag_len = buffer.extract_u8()?;

        if tag_len == 0 {
            return Err(DnsError::InvalidPacketData);
        }

        let tag = String::from_utf8_lossy(buffer.extract_bytes(tag_len as usize)?).to_string();
""", """        let flags = buffer.extract_u8()?;
        let tag = match buffer.extract_u8()? {
            0 => return Err(DnsError::InvalidPacketData),
            n => String::from_utf8_lossy(buffer.extract_bytes(usize::from(n))?).into_owned(),
        };
""", ""),
    ("q-ips", R + "ipseckey.rs", """        let mut buf = Vec::with_capacity(self.byte_size());
        buf.push(self.precedence);
        buf.push(self.gateway.gateway_type());
        buf.push(self.algorithm.into());
        buf.extend(self.gateway.to_bytes());
        buf.extend(&self.public_key);
        buf
""", """        let head = [
            self.precedence,
            self.gateway.gateway_type(),
            u8::from(self.algorithm),
        ];
        head.iter()
            .copied()
            .chain(self.gateway.to_bytes())
            .chain(self.public_key.iter().copied())
            .collect()
""", ""),
    ("q-ips-size", R + "ipseckey.rs", """        match &self {
            Self::None => 1,
            Self::IpV4(_) => 4,
            Self::IpV6(_) => 16,
            Self::Domain(ref name) => name.byte_size(),
        }
""", """        if let Self::Domain(name) = self {
            return name.byte_size();
        }
        match self.gateway_type() {
            0 => 1,
            1 => std::mem::size_of::<Ipv4Addr>(),
            _ => std::mem::size_of::<Ipv6Addr>(),
        }
""", ""),
    ("q-wks", R + "wks.rs", """        buf.extend_from_slice(&self.address.octets());
        buf.push(self.protocol);
        buf.extend(self.bitmap.clone());
        buf
""", """        for octet in self.address.octets() {
            buf.push(octet);
        }
        buf.push(self.protocol);
        let mut rest = self.bitmap.iter();
        while let Some(b) = rest.next() {
            buf.push(*b);
        }
        buf
""", ""),
    ("q-wks-read", R + "wks.rs", """        Ok(Self {
            address: Ipv4Addr::from(buffer.extract_u32()?),
            protocol: buffer.extract_u8()?,
            bitmap: buffer.extract_bytes(buffer.remaining())?.to_vec(),
        })
""", """        let octets: [u8; 4] = buffer.extract_bytes(4)?.try_into()?;
        let address = Ipv4Addr::new(octets[0], octets[1], octets[2], octets[3]);
        let protocol = buffer.extract_u8()?;
        let rest = buffer.remaining();
        Ok(Self::new(address, protocol, Vec::from(buffer.extract_bytes(rest)?)))
""", ""),
    ("q-rrsig-read", R + "dnssec.rs", """        Ok(Self {
            type_covered: buffer.extract_u16()?.try_into()?,
            algorithm: buffer.extract_u8()?.try_into()?,
            labels: buffer.extract_u8()?,
            original_ttl: buffer.extract_u32()?,
            sig_expiration: buffer.extract_u32()?,
            sig_inception: buffer.extract_u32()?,
            key_tag: buffer.extract_u16()?,
            signers_name: buffer.extract_fqdn()?,
            signature: buffer.extract_bytes(buffer.remaining())?.to_vec(),
        })
""", """        let type_covered = RecordType::try_from(buffer.extract_u16()?)?;
        let algorithm = buffer.extract_u8().and_then(|n| n.try_into())?;
        let labels = buffer.extract_u8()?;
        let mut times = [0u32; 3];
        for t in times.iter_mut() {
            *t = buffer.extract_u32()?;
        }
        let [original_ttl, sig_expiration, sig_inception] = times;
        let key_tag = buffer.extract_u16()?;
        let signers_name = buffer.extract_fqdn()?;
        let left = buffer.remaining();
        let signature = buffer.extract_bytes(left).map(|b| b.to_vec())?;
        Ok(Self {
            type_covered,
            algorithm,
            labels,
            original_ttl,
            sig_expiration,
            sig_inception,
            key_tag,
            signers_name,
            signature,
        })
""", ""),
    ("q-uri", R + "uri.rs", """        let mut buff = Vec::with_capacity(self.byte_size());
        buff.extend_from_slice(&u16::to_be_bytes(self.priority));
        buff.extend_from_slice(&u16::to_be_bytes(self.weight));
        buff.extend_from_slice(&self.target);
        buff
""", """        let mut buff = vec![0u8; self.byte_size()];
        buff[0..2].copy_from_slice(&self.priority.to_be_bytes());
        buff[2..4].copy_from_slice(&self.weight.to_be_bytes());
        buff[4..].copy_from_slice(&self.target);
        buff
""", ""),
    ("q-hdr-write", "src/header.rs", """        let mut buffer = Vec::with_capacity(Self::SIZE);
        buffer.extend_from_slice(&u16::to_be_bytes(self.id));
        buffer.extend_from_slice(&self.flags.clone().into_bytes());
        buffer.extend_from_slice(&u16::to_be_bytes(self.ques_count));
        buffer.extend_from_slice(&u16::to_be_bytes(self.ans_count));
        buffer.extend_from_slice(&u16::to_be_bytes(self.auth_count));
        buffer.extend_from_slice(&u16::to_be_bytes(self.add_count));
        buffer
""", """        let mut buffer = Vec::with_capacity(Self::SIZE);
        let [hi, lo] = self.id.to_be_bytes();
        buffer.push(hi);
        buffer.push(lo);
        buffer.extend(self.flags.clone().into_bytes());
        for count in [
            self.ques_count,
            self.ans_count,
            self.auth_count,
            self.add_count,
        ] {
            buffer.extend(count.to_be_bytes());
        }
        buffer
""", ""),
    ("q-hdr-set", "src/header.rs", """        // SAFETY: ra is represented by a single bit in the bitfield
        self.flags.set_ra(unsafe { transmute(ra) });

        // Only set by a server
        if ra {
            self.flags.set_qr(1);
        }
""", """        let bit = u8::from(ra);
        self.flags.set_ra(bit);

        // Only set by a server
        self.flags.set_qr(self.flags.qr() | bit);
""", ""),
    ("q-q-read", "src/question.rs", """            let bin_val = buffer.extract_u16()?;
            if bin_val & MDNS_UNICAST_RESPONSE > 0 {
                (QClass::try_from(bin_val & !MDNS_UNICAST_RESPONSE)?, true)
            } else {
                (QClass::try_from(bin_val)?, false)
            }
""", """            let bin_val = buffer.extract_u16()?;
            let class = QClass::try_from(bin_val & (MDNS_UNICAST_RESPONSE - 1))?;
            (class, bin_val >> 15 == 1)
""", ""),
    ("q-loc", R + "loc.rs", """            latitude: buffer.extract_u32()?,
            longitude: buffer.extract_u32()?,""", """            latitude: u32::from_be_bytes(buffer.extract_bytes(4)?.try_into()?),
            longitude: {
                let high = u32::from(buffer.extract_u16()?);
                high << 16 | u32::from(buffer.extract_u16()?)
            },""", ""),
    ("q-buf-cs", "src/buffer.rs", """        let string = String::from_utf8(self.extract_character_string()?)
            .map_err(|_| DnsError::LengthViolation)?;
        Ok(string)
""", """        match String::from_utf8(self.extract_character_string()?) {
            Ok(string) => Ok(string),
            Err(_) => Err(DnsError::LengthViolation),
        }
""", ""),
    ("q-svcb-cmp", R + "svcb.rs", "        u16::from(*self).cmp(&u16::from(*other))", """        let (a, b) = (u16::from(*self), u16::from(*other));
        if a < b {
            Ordering::Less
        } else if a > b {
            Ordering::Greater
        } else {
            Ordering::Equal
        }""", ""),
    ("q-opcode", "src/header.rs", """            2 => OpCode::ServerStatusRequest,
            _ => OpCode::Reserved,
""", """            2 => OpCode::ServerStatusRequest,
            3..=u8::MAX => OpCode::Reserved,
""", ""),
    ("q-naptr-flag", R + "naptr.rs", """        match value as char {
            'S' => Ok(Self::S),
            'A' => Ok(Self::A),
            'U' => Ok(Self::U),
            'P' => Ok(Self::P),
            _ => Err(DnsError::InvalidNaptrFlag(value)),
        }
""", """        [Self::S, Self::A, Self::U, Self::P]
            .iter()
            .zip(b"SAUP")
            .find(|(_, &c)| c == value)
            .map(|(f, _)| match f {
                Self::S => Self::S,
                Self::A => Self::A,
                Self::U => Self::U,
                Self::P => Self::P,
            })
            .ok_or(DnsError::InvalidNaptrFlag(value))
""", ""),
]
