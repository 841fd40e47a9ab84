/* Part of a stand-in for asdcplib */

#ifndef VERIF_SHIM_KLV_H
#define VERIF_SHIM_KLV_H

#include "KM_util.h"

namespace ASDCP {

using Kumu::Result_t;

class UL : public Kumu::Identifier<16>
{
public:
	UL() {}
	explicit UL(byte_t const* value) : Kumu::Identifier<16>(value) {}
	char const* EncodeString(char* str, ui32_t len) const;
};

enum MDD_t {
	MDD_WaveAudioDescriptor,
	MDD_SoundfieldGroupLabelSubDescriptor,
	MDD_AudioChannelLabelSubDescriptor,
	MDD_DCAudioChannelCfg_4_WTF,
	MDD_DCAudioSoundfield_51,
	MDD_DCAudioSoundfield_71,
	MDD_DCAudioChannel_L,
	MDD_DCAudioChannel_R,
	MDD_DCAudioChannel_C,
	MDD_DCAudioChannel_LFE,
	MDD_DCAudioChannel_Ls,
	MDD_DCAudioChannel_Rs,
	MDD_DCAudioChannel_Lss,
	MDD_DCAudioChannel_Rss,
	MDD_DCAudioChannel_Lrs,
	MDD_DCAudioChannel_Rrs,
	MDD_DCAudioChannel_HI,
	MDD_DCAudioChannel_VIN,
	MDD_DBOXMotionCodePrimaryStream,
	MDD_Max
};

class Dictionary
{
public:
	Dictionary();
	UL const& ul(MDD_t which) const { return _ul[which]; }

private:
	UL _ul[MDD_Max];
};

Dictionary const& DefaultSMPTEDict();

}

#endif
