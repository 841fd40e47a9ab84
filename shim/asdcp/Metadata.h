/* Part of a stand-in for asdcplib */

#ifndef VERIF_SHIM_METADATA_H
#define VERIF_SHIM_METADATA_H

#include "AS_DCP.h"

namespace ASDCP {
namespace MXF {

class ISO8String : public std::string
{
public:
	ISO8String() {}
	ISO8String(std::string const& s) : std::string(s) {}
	ISO8String(char const* s) : std::string(s) {}
	char const* EncodeString(char* str, ui32_t len) const;
};

typedef ISO8String UTF16String;

template <class T>
class optional_property
{
public:
	optional_property() {}
	optional_property(T const& value) : _value(value), _has(true) {}
	optional_property& operator=(T const& value) { _value = value; _has = true; return *this; }

	bool empty() const { return !_has; }
	T& get() { return _value; }
	T const& get() const { return _value; }

private:
	T _value = T();
	bool _has = false;
};

class InterchangeObject
{
public:
	explicit InterchangeObject(MDD_t type_);
	virtual ~InterchangeObject() {}

	MDD_t type;
	Kumu::UUID InstanceUID;
};

class MCALabelSubDescriptor : public InterchangeObject
{
public:
	explicit MCALabelSubDescriptor(MDD_t type_) : InterchangeObject(type_) {}

	UL MCALabelDictionaryID;
	Kumu::UUID MCALinkID;
	UTF16String MCATagSymbol;
	optional_property<UTF16String> MCATagName;
	optional_property<ui32_t> MCAChannelID;
	optional_property<ISO8String> RFC5646SpokenLanguage;
	optional_property<Kumu::UUID> SoundfieldGroupLinkID;
};

class SoundfieldGroupLabelSubDescriptor : public MCALabelSubDescriptor
{
public:
	explicit SoundfieldGroupLabelSubDescriptor(Dictionary const*&)
		: MCALabelSubDescriptor(MDD_SoundfieldGroupLabelSubDescriptor) {}
};

class AudioChannelLabelSubDescriptor : public MCALabelSubDescriptor
{
public:
	explicit AudioChannelLabelSubDescriptor(Dictionary const*&)
		: MCALabelSubDescriptor(MDD_AudioChannelLabelSubDescriptor) {}
};

class WaveAudioDescriptor : public InterchangeObject
{
public:
	WaveAudioDescriptor() : InterchangeObject(MDD_WaveAudioDescriptor) {}

	optional_property<UL> ChannelAssignment;
	std::vector<Kumu::UUID> SubDescriptors;
};

class OP1aHeader
{
public:
	Result_t GetMDObjectByType(UL const& type, InterchangeObject** object = nullptr);
	Result_t GetMDObjectsByType(UL const& type, std::list<InterchangeObject*>& objects);
	void AddChildObject(InterchangeObject* object);

	std::string text() const;
	void parse(std::string const& text);

private:
	std::vector<std::unique_ptr<InterchangeObject>> _objects;
};

}
}

#endif
